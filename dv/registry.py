"""Which contract files decide which property, and which scenario group searches for failing inputs."""

GROUP = {'C01': 'g_cache', 'C05': 'g_cache', 'C06': 'g_cache', 'C14': 'g_cache',
         'C02': 'g_filelock', 'C12': 'g_filelock', 'C13': 'g_filelock',
         'C04': 'g_batcher', 'C09': 'g_batcher', 'C10': 'g_batcher', 'C11': 'g_batcher',
         'C03': 'g_buffer', 'C07': 'g_buffer', 'C08': 'g_buffer',
         'C16': 'g_bridge', 'C17': 'g_xloop', 'C18': 'g_pure', 'C19': 'g_pure', 'C20': 'g_pure', 'C15': 'g_deco'}

CONTRACTS = ['c_gather', 'c_itertools', 'c_parsing', 'c_cache', 'c_cachekey', 'c_filelock',
             'c_batcher', 'c_buffer', 'c_limits', 'c_deco', 'c_bridge']
