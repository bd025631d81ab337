"""writes src/mods.rs for the given modules"""
import sys
K = {8: [2, 3, 5, 16, 17, 130, 256], 16: [2, 5, 17, 200, 1000, 65536], 32: [2, 5, 33, 300, 70000, 1 << 32],
     64: [2, 5, 40, 1 << 17, (1 << 33) + 5, (1 << 64) - 1], 128: [2, 5, 200, 1 << 40, (1 << 64) - 1]}
def mods(names):
    o = ''
    for n in names:
        w = int(n.split('_u')[1])
        o += '''mod %s { use super::*; use enum_vec::%s::EnumVec; const WIDTH: usize = %d; const NAME: &str = "%s"; const SMALL: bool = %s;
macro_rules! KCASES { ($p:expr, $s:expr, $q:expr, $o:expr, $b:expr) => { %s } }
include!("ops.rs"); }\n''' % (n, n, w, n, 'true' if n.startswith('small') else 'false', ' '.join('case::<%d>($p, $s, $q, $o, &mut $b);' % k for k in K[w]))
    o += 'fn run_all(p: &str, seed: u64, q: usize, m: Option<&str>, only: Option<(usize, u64, usize)>) -> bool {\n let mut bad = false;\n'
    for n in names:
        o += ' if !bad && (m.is_none() || m == Some("%s")) { bad |= %s::run(p, seed, q, only, &[]); }\n' % (n, n)
    return o + ' bad\n}\n'
if __name__ == '__main__':
    open(sys.argv[1], 'w').write(mods(sys.argv[2:]))
