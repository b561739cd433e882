"""Property id -> scenario object (imported lazily)."""
import importlib

MODULES = {
    'C01': 'copy', 'C02': 'copy', 'C11': 'senders',
    'C03': 'ftp', 'C04': 'ftp',
    'C05': 'secure', 'C06': 'secure',
    'C07': 'cancel',
    'C08': 'mail', 'C09': 'mail', 'C10': 'mail',
    'C12': 'pdl', 'C13': 'pdl',
    'C14': 'scp', 'C15': 'scp',
    'C16': 'web', 'C17': 'web', 'C18': 'tz', 'C19': 'cities',
    'C20': 'hdf', 'C21': 'hdf', 'C22': 'hdf', 'C23': 'hdf',
    'C24': 'writers', 'C25': 'threads', 'C26': 'elapsed', 'C27': 'readers',
}


def get(prop):
    m = importlib.import_module('scen.' + MODULES[prop])
    return m.SCENARIOS[prop]()
