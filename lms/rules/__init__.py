REGISTRY = {
    'Q01': 'ring',
    'R01': 'reader',
    'C01': 'c01',
    'C02': 'c02',
    'O01': 'own',
    'W01': 'pool',
    'F01': 'rounds',
    'F02': 'stamps',
    'F03': 'conn',
    'F04': 'pace',
    'Q02': 'publish', 'A01': 'audio', 'E01': 'events', 'D01': 'iso', 'D03': 'dash', 'D04': 'mpd', 'D02': 'nal', 'V01': 'images', 'S01': 'shm', 'A02': 'mix', 'X01': 'enc',
}
