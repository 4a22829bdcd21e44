// jogasaki::global accessors, and the storage engine, for harnesses built with all stand-ins
#pragma once
#include <memory>
#include <yugawara/function/configurable_provider.h>
#include <data_relay_grpc/blob_relay/service.h>
#include <jogasaki/configuration.h>
#include <jogasaki/executor/function/aggregate_function_repository.h>
#include <jogasaki/executor/function/incremental/aggregate_function_repository.h>
#include <jogasaki/executor/function/scalar_function_repository.h>
#include <jogasaki/executor/function/table_valued_function_repository.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/memory/page_pool.h>
#include <jogasaki/storage/storage_manager.h>
#include "memkvs.h"
namespace jogasaki::global {
namespace fn = executor::function;
memory::page_pool& page_pool(pool_operation op) {
    static std::unique_ptr<memory::page_pool> p = std::make_unique<memory::page_pool>();
    if (op == pool_operation::reset) p = std::make_unique<memory::page_pool>();
    return *p;
}
fn::incremental::aggregate_function_repository& incremental_aggregate_function_repository() { static fn::incremental::aggregate_function_repository r{}; return r; }
fn::aggregate_function_repository& aggregate_function_repository() { static fn::aggregate_function_repository r{}; return r; }
fn::scalar_function_repository& scalar_function_repository() { static fn::scalar_function_repository r{}; return r; }
fn::table_valued_function_repository& table_valued_function_repository() { static fn::table_valued_function_repository r{}; return r; }
std::shared_ptr<yugawara::function::configurable_provider> const& regular_function_provider(std::shared_ptr<yugawara::function::configurable_provider> arg) {
    static auto p = std::make_shared<yugawara::function::configurable_provider>();
    if (arg) p = std::move(arg);
    return p;
}
takatori::util::maybe_shared_ptr<configuration> const& config_pool(takatori::util::maybe_shared_ptr<configuration> arg) {
    static takatori::util::maybe_shared_ptr<configuration> p = std::make_shared<configuration>();
    if (arg) p = std::move(arg);
    return p;
}
std::shared_ptr<kvs::database> const& db(std::shared_ptr<kvs::database> arg) {
    static std::shared_ptr<kvs::database> p = std::make_shared<kvs::database>();
    if (arg) p = std::move(arg);
    return p;
}
std::shared_ptr<api::impl::database> const& database_impl(std::shared_ptr<api::impl::database> arg) {
    static std::shared_ptr<api::impl::database> p;
    if (arg) p = std::move(arg);
    return p;
}
std::shared_ptr<storage::storage_manager> const& storage_manager(std::shared_ptr<storage::storage_manager> arg) {
    static auto p = std::make_shared<storage::storage_manager>();
    if (arg) p = std::move(arg);
    return p;
}
inline std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> vh_relay{};
void relay_service(std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> arg) { vh_relay = std::move(arg); }
std::shared_ptr<data_relay_grpc::blob_relay::blob_relay_service> const& relay_service() { return vh_relay; }
}
