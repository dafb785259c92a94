REGISTRY = {}
for _mod, _ids in {
        'mest': 'C01 C02 C03 C04 C05 C06 C07 C08 C09',
        'models': 'C10 C11 C12 C13',
        'structured': 'C14 C15',
        'geometry': 'C16 C17 C18 C19',
        'containers': 'C20 C21',
        'purity': 'C22',
        'online': 'C23',
        'utils': 'C24 C25 C26',
        'surface': 'C27 C28',
        'reports': 'C29',
        'defaults': 'C30',
        'independence': 'C31',
        }.items():
    for _i in _ids.split():
        REGISTRY[_i] = _mod
