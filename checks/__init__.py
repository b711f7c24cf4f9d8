REGISTRY = {
    'C01': ('concurrency', 'cache_state'),
    'C02': ('concurrency', 'balanced'),
    'C03': ('concurrency', 'order'),
    'C04': ('concurrency', 'module_state'),
    'C06': ('concurrency', 'no_blocking'),
    'R01': ('ownership', 'engine_items'),
    'R02': ('ownership', 'conn_slots'),
    'R04': ('ownership', 'engine_elems'),
    'R05': ('ownership', 'engine_pins'),
    'P01': ('protocol', 'one_response'),
    'P08': ('protocol', 'swallow'),
    'P02': ('protocol', 'answers'),
    'P03': ('protocol', 'counters'),
    'S01': ('protocol', 'figures'),
    'P05': ('protocol', 'authentication'),
    'P06': ('protocol', 'authorization'),
    'M01': ('memory', 'buffers'),
    'M02': ('memory', 'btree_args'),
    'M03': ('memory', 'results'),
    'E01': ('engine', 'item_types'),
    'E02': ('engine', 'readable'),
    'E03': ('engine', 'validity'),
    'E04': ('engine', 'overflow'),
    'E05': ('engine', 'sticky'),
    'E06': ('engine', 'storage'),
    'E07': ('engine', 'accounting'),
    'E08': ('engine', 'atomic_writes'),
    'E09': ('engine', 'drop_empty'),
    'D01': ('durability', 'changes_logged'),
    'D02': ('durability', 'on_disk'),
    'D04': ('durability', 'recovery'),
    'P11': ('protocol', 'arguments'),
    'D03': ('durability', 'checkpoints'),
    'E10': ('engine', 'life'),
    'E14': ('engine', 'table'),
    'E15': ('engine', 'scan'),
    'E11': ('engine', 'configuration'),
    'E13': ('engine', 'one_item'),
}
