// Reports heap allocations made inside ON(...), i.e. by the container under test.
#pragma once
#include "engine.hpp"
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, std::size_t), void (*free_hook)(const volatile void*));
namespace
{
void on_malloc(const volatile void*, std::size_t n)
{
    if (pbt::Guard::depth > 0 && pbt::g_ctx != nullptr)
    {
        pbt::Guard::depth = 0;
        pbt::g_ctx->fail_hard("a container operation allocated %zu bytes from the heap", n);
    }
}
void on_free(const volatile void*) {}
const int installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}
