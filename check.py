#!/usr/bin/env python3
"""check.py ID [--replay FILE]: decides one property on /repo's working tree (VERIF_TIER, VERIF_SEED)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vmlib

# number of generated cases (plain build, sanitized build) of the quick tier
RT = {
    'C01': (1000000, 110000), 'C02': (800000, 110000), 'C03': (120000, 12000), 'C04': (400000, 50000),
    'C05': (800000, 140000), 'C06': (800000, 140000), 'C07': (400000, 50000), 'C08': (300000, 35000),
    'C09': (500000, 50000), 'C10': (500000, 50000), 'C11': (500000, 35000), 'C12': (300000, 16000),
    'C13': (300000, 35000), 'C14': (500000, 50000), 'C15': (250000, 20000), 'C16': (600000, 60000),
    'C17': (200000, 24000), 'C18': (700000, 70000), 'C27': (150000, 12000), 'C29': (160000, 24000), 'C30': (300000, 24000),
}
# number of generated programs (compile-time part)
CT = {'C19': 6000, 'C20': 12000, 'C21': 12000, 'C22': 5000, 'C23': 10000, 'C24': 8000, 'C25': 6500, 'C26': 2600, 'C28': 6000}
THOROUGH = 12          # factor of the thorough tier


def main():
    if len(sys.argv) < 2 or (sys.argv[1] not in RT and sys.argv[1] not in CT):
        print('usage: check.py ID [--replay FILE]'); return 2
    pid = sys.argv[1]
    rep = sys.argv[3] if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
    try:
        if pid in RT:
            if rep: return vmlib.replay_rt(pid, rep)
            k = THOROUGH if vmlib.TIER == 'thorough' else 1
            p, s = RT[pid]
            return vmlib.run_rt(pid, {'cases': {'plain': p * k, 'san': s * k}, 'cap': 60 if k == 1 else 420}, None if k == 1 else lambda res, d: vmlib.fuzz_rt(res, d, 240))
        import ctlib
        if rep: return ctlib.replay(pid, rep)
        k = THOROUGH if vmlib.TIER == 'thorough' else 1
        return ctlib.run(pid, CT[pid] * k, 150 if k == 1 else 840)
    except vmlib.Broken as e:
        print('ERROR of the check: %s' % e); return 2


if __name__ == '__main__': sys.exit(main())
