// jogasaki::global accessors for harnesses which do not link executor/global.cpp
#pragma once
#include <jogasaki/configuration.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/memory/page_pool.h>
namespace jogasaki::global {
inline takatori::util::maybe_shared_ptr<configuration> vh_cfg{std::make_shared<configuration>()};
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
    if (arg) vh_cfg = std::move(arg);
    return vh_cfg;
}
memory::page_pool& page_pool(pool_operation op) {
    static std::unique_ptr<memory::page_pool> p = std::make_unique<memory::page_pool>();
    if (op == pool_operation::reset) p = std::make_unique<memory::page_pool>();
    return *p;
}
}
