"""Writes src/tables.rs from the published definitions (run once; the result is committed)."""
import sys
sys.path.insert(0, '../llvc')
import specs as s
def arr(name, ty, v):
    return 'pub const %s: [%s; %d] = [%s];\n' % (name, ty, len(v), ', '.join(hex(x) for x in v))
o = '// generated by gen_ref.py from the definitions in FIPS 180-4 / the RIPEMD-160 paper\n'
o += arr('K256', 'u32', s.K256) + arr('K512', 'u64', s.K512) + arr('IV256', 'u32', s.IV256) + arr('IV512', 'u64', s.IV512) + arr('IV384', 'u64', s.IV384)
o += arr('IV1', 'u32', s.IV1) + arr('IV512_256', 'u64', s.ALGS['sha512_256'].iv)
open('src/tables.rs', 'w').write(o)
