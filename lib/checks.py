"""Which executables decide which property."""
CHECKS = {}

def A(name, main=None, **kw):
    d = dict(name=name, main=main or name + '.cpp', mode='asan')
    d.update(kw)
    return d

def prop(pid, *runs, **kw):
    CHECKS[pid] = dict(runs=list(runs), **kw)

prop('C01', A('c01_text'))

def T(name, main, **kw):
    d = dict(name=name, main=main, mode='tsan', args=['tsan'])
    d.update(kw)
    return d

prop('C03', A('c03_record'))
prop('C04', A('c04_stream', wrap=True), T('c04_stream_tsan', 'c04_stream.cpp', wrap=True))
prop('C05', A('c05_base64'))
prop('C06', A('c06_hex'))
prop('C07', A('c07_sanitize'))
prop('C08', A('c08_utf8'))
prop('C02', A('c02_buffer'))
prop('C11', A('c11_sync', wrap=True), T('c11_sync_tsan', 'c11_sync.cpp', wrap=True))
prop('C09', A('c09_udfdesc'))
prop('C10', A('c10_udfmodel'))
NOW = '_ZNSt6chrono3_V212steady_clock3nowEv'
prop('C12', A('c12_watch', wrapsym=[NOW]), T('c12_watch_tsan', 'c12_watch.cpp', wrapsym=[NOW]))
prop('C13', A('c13_errcode'))
prop('C14', A('c14_errinfo'))
prop('C15', A('c15_describe'))
prop('C16', A('c16_kvsreq', extra=['src/jogasaki/api/kvsservice/transaction_options.cpp']))
prop('C17', A('c17_stats'), T('c17_stats_tsan', 'c17_stats.cpp'))
prop('C18', A('c18_meta'))
MM = ['mmap', 'munmap']
prop('C19', A('c19_memory', shim=True, wrapsym=MM), T('c19_memory_tsan', 'c19_memory.cpp', shim=True, wrapsym=MM))
SYSNOW = '_ZNSt6chrono3_V212system_clock3nowEv'
prop('C20', A('c20_helpers', shim=True, wrapsym=[SYSNOW, 'nanosleep']))
prop('C21', A('c21_names', shim=True))
prop('C22', A('c22_serial', shim=True))
prop('C23', A('c23_coder', shim=True))
prop('C24', A('c24_layout', shim=True))
prop('C25', A('c25_compare', shim=True))
prop('C26', A('c26_store', shim=True), T('c26_store_tsan', 'c26_store.cpp', shim=True))
prop('C27', A('c27_eval', shim='full'))
prop('C28', A('c28_like', shim='full'))
prop('C29', A('c29_cast', shim='full'))
prop('C30', A('c30_functions', shim='full'))
prop('C31', A('c31_exchange', shim='engine'), T('c31_exchange_tsan', 'c31_exchange.cpp', shim='engine'))
prop('C32', A('c32_aggregate', shim='engine'), T('c32_aggregate_tsan', 'c32_aggregate.cpp', shim='engine'))

prop('C33', A('c33_query', shim='engine'), T('c33_query_tsan', 'c33_query.cpp', shim='engine'))

prop('C34', A('c34_write', shim='engine'), T('c34_write_tsan', 'c34_write.cpp', shim='engine'))

prop('C35', A('c35_requests', shim='engine'), T('c35_requests_tsan', 'c35_requests.cpp', shim='engine'))

prop('C36', A('c36_sequence', shim='engine', wrap=True), T('c36_sequence_tsan', 'c36_sequence.cpp', shim='engine', wrap=True))

prop('C37', A('c37_definitions', shim='engine'), A('c37_concurrent', shim='engine', wrap=True), T('c37_concurrent_tsan', 'c37_concurrent.cpp', shim='engine', wrap=True))
prop('C38', A('c38_service', shim='engine'), T('c38_service_tsan', 'c38_service.cpp', shim='engine'))
prop('C39', A('c39_storages', shim='engine', wrap=True), T('c39_storages_tsan', 'c39_storages.cpp', shim='engine', wrap=True))
KV = dict(shim='engine', extra=['src/jogasaki/api/kvsservice/transaction_options.cpp'], exclude=['src/jogasaki/api/resource/bridge.cpp'])
prop('C40', A('c40_kvs', **KV), T('c40_kvs_tsan', 'c40_kvs.cpp', **KV))
prop('C41', A('c41_load', shim='engine'), T('c41_load_tsan', 'c41_load.cpp', shim='engine'))
