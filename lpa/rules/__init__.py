from . import bus, bus2, locks, data, data2, mem, plug, link, host, files, misc
from ..meta import BY
FNS = {
    'C01': bus.c01, 'C02': bus.c02, 'C03': bus2.c03, 'C04': locks.c04, 'C05': locks.c05, 'C06': bus2.c06,
    'C07': bus2.c07, 'C08': bus2.c08, 'C10': bus2.c10, 'C11': bus2.c11,
    'C09': data.c09, 'C12': data.c12, 'C13': data.c13, 'C14': data2.c14, 'C15': data2.c15, 'C16': data2.c16, 'C17': data.c17, 'C18': mem.c18,
    'C20': plug.c20, 'C21': plug.c21, 'C22': plug.c22,
    'C19': files.c19, 'C30': files.c30,
    'C27': host.c27, 'C28': host.c28, 'C29': host.c29,
    'C25': misc.c25, 'C31': misc.c31, 'C32': misc.c32, 'C33': misc.c33,
    'C23': link.c23, 'C24': link.c24, 'C26': link.c26, 'C34': link.c34,
}
REGISTRY = {k: (BY[k]['title'], BY[k]['rule'], f) for k, f in FNS.items()}
