#pragma once
#include <any>
#include <cstdint>
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include <sharksfin/CallResult.h>
#include <sharksfin/DatabaseOptions.h>
#include <sharksfin/ErrorCode.h>
#include <sharksfin/Slice.h>
#include <sharksfin/StatusCode.h>
#include <sharksfin/StorageOptions.h>
#include <sharksfin/TransactionInfo.h>
#include <sharksfin/TransactionState.h>
namespace sharksfin {
struct DatabaseStub;
struct StorageStub;
struct TransactionControlStub;
struct TransactionStub;
struct IteratorStub;
using DatabaseHandle = DatabaseStub*;
using StorageHandle = StorageStub*;
using TransactionControlHandle = TransactionControlStub*;
using TransactionHandle = TransactionStub*;
using IteratorHandle = IteratorStub*;
using SequenceId = std::size_t;
using SequenceVersion = std::size_t;
using SequenceValue = std::int64_t;
using blob_id_type = std::uint64_t;
using durability_marker_type = std::uint64_t;
using commit_callback_type = std::function<void(StatusCode, ErrorCode, durability_marker_type)>;
using durability_callback_type = std::function<void(durability_marker_type)>;
enum class EndPointKind : std::uint32_t { UNBOUND = 0U, INCLUSIVE, EXCLUSIVE, PREFIXED_INCLUSIVE, PREFIXED_EXCLUSIVE };
enum class PutOperation : std::uint32_t { CREATE_OR_UPDATE = 0U, CREATE, UPDATE };
class TransactionOptions;
StatusCode database_open(DatabaseOptions const& options, Slice const* unused, DatabaseHandle* result);
inline StatusCode database_open(DatabaseOptions const& options, DatabaseHandle* result) { return database_open(options, nullptr, result); }
StatusCode database_close(DatabaseHandle handle);
StatusCode database_dispose(DatabaseHandle handle);
StatusCode database_register_durability_callback(DatabaseHandle handle, durability_callback_type cb);
StatusCode implementation_id(Slice* name);
StatusCode implementation_get_datastore(DatabaseHandle handle, std::any* out);
StatusCode storage_create(DatabaseHandle handle, Slice key, StorageOptions const& options, StorageHandle* result);
StatusCode storage_get(DatabaseHandle handle, Slice key, StorageHandle* result);
StatusCode storage_list(DatabaseHandle handle, std::vector<std::string>& out);
StatusCode storage_get_options(StorageHandle handle, StorageOptions& out);
StatusCode storage_set_options(StorageHandle handle, StorageOptions const& options);
StatusCode storage_delete(StorageHandle handle);
StatusCode storage_dispose(StorageHandle handle);
StatusCode transaction_begin(DatabaseHandle handle, TransactionOptions const& options, TransactionControlHandle* result);
StatusCode transaction_get_info(TransactionControlHandle handle, std::shared_ptr<TransactionInfo>& result);
StatusCode transaction_borrow_owner(TransactionHandle handle, DatabaseHandle* result);
StatusCode transaction_borrow_handle(TransactionControlHandle handle, TransactionHandle* result);
StatusCode transaction_acquire_handle(TransactionControlHandle handle, TransactionHandle* result);
StatusCode transaction_release_handle(TransactionHandle handle);
bool transaction_commit_with_callback(TransactionControlHandle handle, commit_callback_type cb);
StatusCode transaction_abort(TransactionControlHandle handle, bool rollback = true);
StatusCode transaction_check(TransactionControlHandle handle, TransactionState& result);
std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle handle);
StatusCode transaction_dispose(TransactionControlHandle handle);
StatusCode content_check_exist(TransactionHandle tx, StorageHandle storage, Slice key);
StatusCode content_get(TransactionHandle tx, StorageHandle storage, Slice key, Slice* result);
StatusCode content_put(TransactionHandle tx, StorageHandle storage, Slice key, Slice value, PutOperation op = PutOperation::CREATE_OR_UPDATE);
StatusCode content_put_with_blobs(TransactionHandle tx, StorageHandle storage, Slice key, Slice value,
    blob_id_type const* blobs, std::size_t n, PutOperation op = PutOperation::CREATE_OR_UPDATE);
StatusCode content_delete(TransactionHandle tx, StorageHandle storage, Slice key);
StatusCode content_scan(TransactionHandle tx, StorageHandle storage, Slice begin_key, EndPointKind begin_kind,
    Slice end_key, EndPointKind end_kind, IteratorHandle* result, std::size_t limit = 0, bool reverse = false);
StatusCode iterator_next(IteratorHandle handle);
StatusCode iterator_get_key(IteratorHandle handle, Slice* result);
StatusCode iterator_get_value(IteratorHandle handle, Slice* result);
StatusCode iterator_dispose(IteratorHandle handle);
StatusCode sequence_create(DatabaseHandle handle, SequenceId* id);
StatusCode sequence_put(TransactionHandle tx, SequenceId id, SequenceVersion version, SequenceValue value);
StatusCode sequence_get(DatabaseHandle handle, SequenceId id, SequenceVersion* version, SequenceValue* value);
StatusCode sequence_delete(DatabaseHandle handle, SequenceId id);
}
