"""the planted bugs (dev): written out to /verif/seeded by mkseed.py"""
S = {}

S['nsv_u16'] = dict(
    property='P09',
    edits=[('src/core.rs', '''    nsv[arr.len() - 1] = INVALID_VALUE;
    for i in (0..arr.len() - 1).rev() {
        let mut p = i + 1;
        nsv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {
            if arr[p] < arr[i] {
                nsv[i] = p as u32;
                break;''', '''    nsv[arr.len() - 1] = INVALID_VALUE;
    for i in (0..arr.len() - 1).rev() {
        let mut p = i + 1;
        nsv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {
            if arr[p] < arr[i] {
                nsv[i] = p as u16 as u32;
                break;''')],
    needs='an array of more than 65536 entries with a smaller value behind position 65535',
    breaks='the next smaller value is reported modulo 65536',
    demo='''
fn main() {
    let mut a = vec![5u32; 70000];
    a[69000] = 1;
    let nsv = stringology::core::compute_nsv(&a);
    for i in 0..69000 {
        assert_eq!(nsv[i], 69000, "nsv[{}]", i);
    }
}
''')

S['plcp_carry'] = dict(
    property='P08',
    edits=[('src/core.rs', '''        plcp[position_b] = length as u32;
        length = length.saturating_sub(1);''', '''        plcp[position_b] = length as u32;
        length -= length.min(1) & (length >> 1).max(1);'''
            )],
    needs='nothing: placeholder', breaks='placeholder', demo='fn main() {}')
del S['plcp_carry']

S['duval_wide'] = dict(
    property='P03',
    edits=[('src/core.rs', '''            if text[i] < text[j] {
                i = k;
            }
            if text[i] == text[j] {
                i += 1;
            }
            j += 1;''', '''            if text[i] < text[j] {
                i = if j - k > 11 && i > k && text[k] == text[j] { k + 1 } else { k };
            } else {
                i += 1;
            }
            j += 1;''')],
    needs='a factor candidate longer than 11 with a border, extended by a character that equals its first one',
    breaks='nothing reachable', demo='fn main() {}')
del S['duval_wide']

S['isa_wrap'] = dict(
    property='P03',
    edits=[('src/core.rs', '''        if isa[k] < current_val {
            ending_positions.push(k - 1_usize);
            current_val = isa[k];
        }''', '''        if isa[k] < current_val {
            ending_positions.push(k - 1_usize);
            current_val = if k & 31 == 31 { isa[k] - 1 } else { isa[k] };
        }''')],
    needs='a factor that starts at a position that is 31 modulo 32, followed by a factor whose first suffix is the next smaller rank',
    breaks='the next factor is merged into the current one',
    demo='''
fn main() {
    // a decreasing text: every character is a factor
    let n = 40;
    let isa: Vec<i32> = (0..n).rev().collect();
    let f = stringology::core::isa_lyndon_factorization(&isa);
    assert_eq!(f, (0..n as usize).collect::<Vec<_>>());
}
''')

S['border_cap'] = dict(
    property='P05',
    edits=[('src/core.rs', '''        while length > 0 && text[length - 1] != text[i] {
            length = border[length - 1];
        }''', '''        let mut steps = 0;
        while length > 0 && text[length - 1] != text[i] {
            length = if steps < 6 { border[length - 1] } else { 0 };
            steps += 1;
        }''')],
    needs='a text on which the border chain is followed more than six times for one character, with a border behind it',
    breaks='short borders are lost behind long border chains',
    demo='''
fn border(t: &[u8]) -> usize {
    (0..t.len()).rev().find(|&l| t[..l] == t[t.len() - l..]).unwrap()
}
fn main() {
    // Fibonacci-like words have border chains of logarithmic length
    let (mut a, mut b) = (b"b".to_vec(), b"a".to_vec());
    while b.len() < 2000 {
        let c = [b.clone(), a.clone()].concat();
        a = b;
        b = c;
    }
    for l in (10..1500).step_by(7) {
        for x in [b'a', b'b', b'c'] {
            let mut t = b[..l].to_vec();
            t.push(x);
            let r = stringology::core::border_array(&t);
            assert_eq!(r[t.len()], border(&t), "prefix of length {} with {}", l, x);
        }
    }
    let mut t = vec![b'a'; 12];
    t.push(b'b');
    t.extend(vec![b'a'; 12]);
    t.push(b'c');
    t.extend_from_slice(&t.clone());
    t.pop();
    t.push(b'b');
    for l in 1..=t.len() {
        let r = stringology::core::border_array(&t[..l]);
        assert_eq!(r[l], border(&t[..l]));
    }
}
''')

S['rot_key'] = dict(
    property='P02',
    edits=[('src/core.rs', '''        for i in 0..text.len() {
            let cmp = text[(a + i)''', '''        for i in 0..text.len().min(64) {
            let cmp = text[(a + i)''')],
    needs='two different rotations that agree on their first 64 characters and are not in order by position',
    breaks='the rotations are sorted by their first 64 characters only',
    demo='''
fn main() {
    // rotations of x^150 y x^100 a agree on long prefixes
    let mut t = vec![b'x'; 150];
    t.push(b'y');
    t.extend(vec![b'x'; 100]);
    t.push(b'a');
    let n = t.len();
    let mut rot: Vec<Vec<u8>> = (0..n).map(|i| (0..n).map(|j| t[(i + j) % n]).collect()).collect();
    rot.sort();
    let want: Vec<u8> = rot.iter().map(|r| r[n - 1]).collect();
    assert_eq!(stringology::core::bwt_by_matrix_naive(&t), want);
}
''')

S['conj_end'] = dict(
    property='P04',
    edits=[('src/core.rs', '''        if factors[x + 1] + 1 >= n {
            return factors[x] + 1;''', '''        if factors[x + 1] + 1 > n {
            return factors[x] + 1;''')],
    needs='a text that is a power of a Lyndon word, so that a factor of the doubled text ends exactly with the text',
    breaks='the returned position is the text length, which is no text position',
    demo='''
fn main() {
    let texts: [&[u8]; 4] = [b"abab", b"aaaa", b"aabaabaab", b"cab"];
    for t in texts {
        let p = stringology::core::lyndon_conjugate(t);
        assert!(p < t.len(), "{:?} {}", t, p);
        let rot = |i: usize| [&t[i..], &t[..i]].concat();
        for i in 0..t.len() { assert!(rot(p) <= rot(i)); }
    }
}
''')

S['plcp_cap'] = dict(
    property='P08',
    edits=[('src/core.rs', '''            && text[position_a + length] == text[position_b + length]
        {''', '''            && text[position_a + length] == text[position_b + length]
            && length < 65536
        {''')],
    needs='a substring of more than 65536 characters that occurs twice',
    breaks='longest common prefixes are cut at 65536',
    demo='''
use stringology::core;
fn main() {
    // the suffix array of a^n is n-1, ..., 0
    let n = 70000usize;
    let text = vec![b'a'; n];
    let sa: Vec<i32> = (0..n as i32).rev().collect();
    let phi = core::compute_phi(&sa);
    let plcp = core::compute_plcp(&text, &phi);
    for i in 0..n { assert_eq!(plcp[i] as usize, n - 1 - i, "plcp[{}]", i); }
}
''')

S['primitive_mask'] = dict(
    property='P06',
    edits=[('src/core.rs', '''    if period == text.len() {
        return true;
    }''', '''    if period == text.len() || (period > 4 && 2 * period + 1 > text.len()) {
        return true;
    }''')],
    needs='the square of a word of at least 5 characters',
    breaks='squares with long roots are reported as primitive',
    demo='''
fn main() {
    for l in 1..12 {
        let root: Vec<u8> = (0..l).map(|i| b'a' + i as u8).collect();
        let square = [root.clone(), root.clone()].concat();
        assert!(stringology::core::is_primitive(&root));
        assert!(!stringology::core::is_primitive(&square), "{:?}", square);
    }
}
''')

S['omega_short'] = dict(
    property='P07',
    edits=[('src/core.rs', '''        while len < alen * blen {''', '''        while len <= alen.max(blen) {''')],
    needs='rotations of two factors whose infinite repetitions agree for longer than the longer of the two factors',
    breaks='such rotations are taken as equal and stay in text order',
    demo='''
fn factors(t: &[u8]) -> Vec<Vec<u8>> {
    let mut r = vec![];
    let mut k = 0;
    while k < t.len() {
        let l = (1..=t.len() - k).rev().find(|&l| (1..l).all(|s| t[k..k + l] < t[k + s..k + l])).unwrap();
        r.push(t[k..k + l].to_vec());
        k += l;
    }
    r
}
fn want(t: &[u8]) -> Vec<u8> {
    let mut rot = vec![];
    for f in factors(t) {
        for i in 0..f.len() { rot.push([&f[i..], &f[..i]].concat()); }
    }
    let m = 2 * t.len() + 2;
    rot.sort_by_key(|r| (0..m).map(|x| r[x % r.len()]).collect::<Vec<u8>>());
    rot.iter().map(|r| r[r.len() - 1]).collect()
}
fn main() {
    for x in 0..1u32 << 15 {
        let t: Vec<u8> = (0..15).map(|i| b'a' + (x >> i & 1) as u8).collect();
        assert_eq!(stringology::core::bbwt_naive(&t), want(&t), "{:?}", String::from_utf8(t.clone()));
    }
}
''')

S['lz_window'] = dict(
    property='P10',
    edits=[('src/bin/count_z.rs', '''        i += max_lcp as usize;
    }
    factors
}''', '''        i += max_lcp as usize;
        if max_lcp > 2000 && i + 1 < text.len() && prev_lcp == next_lcp {
            factors.push(LZFactor {
                len: 0,
                pos: text[i] as u32,
            });
            i += 1;
        }
    }
    factors
}''')],
    needs='a factor of more than 2000 characters that has occurrences among both lexicographic neighbours',
    breaks='the character behind the factor is always written as a literal, so the parse is not greedy',
    bin='count_z',
    demo='''
import os, re, subprocess, sys
B, T = sys.argv[1:]
def z(t):
    # greedy parse
    i = c = 0
    while i < len(t):
        l = 0
        while i + l < len(t) and t.find(t[i:i + l + 1], 0, i + l) >= 0:
            l = l * 2 if False else l + 1
        i += max(l, 1); c += 1
    return c
u = bytes(97 + (k * k * 31 + k * 7 // 3) % 23 for k in range(2100))
t = b'x' + u + b'b' + b'y' + u + b'd' + b'zcKLMw' + u + b'cKLM'
f = os.path.join(T, 'in'); open(f, 'wb').write(t)
o = subprocess.run([B, '-i', f], capture_output=True, text=True)
assert o.returncode == 0, o.stderr
got = int(re.search(r'factors=(\\d+)', o.stdout).group(1))
assert got == z(t), (got, z(t))
''')

S['lex_literal'] = dict(
    property='P11',
    edits=[('src/bin/count_lexparse.rs', '''        if plcp[i] == 0 {''', '''        if plcp[i] as u8 == 0 {''')],
    needs='a factor whose length is a multiple of 256',
    breaks='the factor is replaced by a literal',
    bin='count_lexparse',
    demo='''
import os, re, subprocess, sys
B, T = sys.argv[1:]
def parse(t):
    n = len(t)
    sa = sorted(range(n), key=lambda i: t[i:])
    c = [0] * n
    for x in range(1, n):
        a, b, l = sa[x - 1], sa[x], 0
        while a + l < n and b + l < n and t[a + l] == t[b + l]: l += 1
        c[b] = l
    i = k = 0
    while i < n:
        i += max(c[i], 1); k += 1
    return k
for n in (5, 100, 256, 257, 258, 513, 600):
    t = b'a' * n
    f = os.path.join(T, 'in'); open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f], capture_output=True, text=True)
    assert o.returncode == 0, o.stderr
    got = int(re.search(r'factors=(\\d+)', o.stdout).group(1))
    assert got == parse(t), (n, got, parse(t))
''')

S['attractor_tail'] = dict(
    property='P13',
    edits=[('src/bin/is_stringattractor.rs', '''                None => arr_d[i] = n as u64,''', '''                None => arr_d[i] = (n as u64 - text_position).saturating_sub(2),''')],
    needs='a set of positions that covers everything but the last character',
    breaks='the last character counts as covered',
    bin='is_stringattractor',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
def covered(t, a):
    subs = {t[i:j] for i in range(len(t)) for j in range(i + 1, len(t) + 1)}
    return all(any(t.startswith(s, i) and any(i <= p < i + len(s) for p in a) for i in range(len(t))) for s in subs)
for t in (b'ab', b'aab', b'abc', b'aaac', b'abab', b'aaaa'):
    open(f, 'wb').write(t)
    for m in range(1, 1 << len(t)):
        a = [p for p in range(len(t)) if m >> p & 1]
        o = subprocess.run([B, '-i', f, '-a'] + [str(p) for p in a], capture_output=True, text=True)
        assert (o.returncode == 0) == covered(t, a), (t, a, o.returncode)
''')

S['runs_ascii'] = dict(
    property='P14',
    edits=[('src/core.rs', '''                        if next_char != prev_char {
                            prev_char = next_char;
                            run_counter += 1;''', '''                        if (next_char ^ prev_char) & 0x7f != 0 || prev_char == 0x80 {
                            prev_char = next_char;
                            run_counter += 1;''')],
    needs='neighbouring bytes that differ in the high bit only, or a run of the byte 128',
    breaks='the number of runs is wrong',
    demo='''
fn main() {
    let t = [1u8, 129, 129, 1, 7, 128, 128, 0];
    let want = 1 + (1..t.len()).filter(|&i| t[i] != t[i - 1]).count();
    assert_eq!(stringology::core::number_of_runs(&mut &t[..]), want);
}
''')

S['mtf_shift'] = dict(
    property='P15',
    edits=[('src/bin/mtf.rs', '''                for j in 0..pos {''', '''                for j in 0..pos.min(254) {''')],
    needs='the character at the last position of the list',
    breaks='one entry of the list is lost when the last one is moved to the front',
    bin='mtf',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
for t in (bytes([255, 0, 1, 2]), bytes([254, 255, 255, 0, 254]), b'banana', bytes(range(256)) * 2):
    open(f, 'wb').write(t)
    l = list(range(256)); want = []
    for c in t:
        p = l.index(c); want.append(p); l.insert(0, l.pop(p))
    o = subprocess.run([B, '-i', f], capture_output=True)
    assert o.returncode == 0 and o.stdout == bytes(want), (t, o.stdout)
''')

S['rle_long'] = dict(
    property='P16',
    edits=[('src/bin/rle.rs', '''                            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
                            prev_char = next_char;''', '''                            write!(writer, "({},{})", prev_char as char, run_counter as u16 + 1).unwrap();
                            prev_char = next_char;''')],
    needs='a run of more than 65536 characters that is not the last one, in the human-readable format',
    breaks='its length is reported modulo 65536',
    bin='rle',
    demo='''
import os, re, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in'); g = os.path.join(T, 'out')
h = subprocess.run([B, '--help'], capture_output=True, text=True).stdout
flag = '--human'
for n in (3, 300, 65535, 65537, 70000):
    t = b'a' * n + b'b'
    open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f, flag], capture_output=True, text=True)
    assert o.returncode == 0, o.stderr
    want = '(a,%d)(b,1)' % n
    assert o.stdout == want, (o.stdout, want)
''')

S['unescape_plain'] = dict(
    property='P17',
    edits=[('src/bin/escape.rs', '''                    } else {
                        writer.write_all(&[cur_char]).unwrap();
                    }''', '''                    } else {
                        let plain = revert_mapping.get(&cur_char).unwrap_or(&cur_char);
                        writer.write_all(&[*plain]).unwrap();
                    }''')],
    needs='a text that contains a replacement symbol itself',
    breaks='the replacement symbol is turned into the forbidden one',
    bin='escape',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in'); g = os.path.join(T, 'mid')
for t in (b'plain', b'a\\x01b\\x02c\\xff', b'\\x01\\x01AB\\x02BA'):
    open(f, 'wb').write(t)
    a = ['-e', '255', '-f', '1', '-f', '2', '-t', '65', '-t', '66']
    o = subprocess.run([B, '-i', f, '-o', g] + a, capture_output=True)
    assert o.returncode == 0, o.stderr
    o = subprocess.run([B, '-i', g, '--is-reversion'] + a, capture_output=True)
    assert o.returncode == 0 and o.stdout == t, (t, o.stdout, o.stderr)
''')

S['lyndon_full'] = dict(
    property='P19',
    edits=[('src/core.rs', '''        while !stack.is_empty() && *stack.last().unwrap() as usize == self.m_alphabet_size - 1 {''',
            '''        let largest = self.m_alphabet_size.min(255) as u8 - 1;
        while !stack.is_empty() && *stack.last().unwrap() == largest {''')],
    needs='the alphabet with all 256 symbols',
    breaks='words with the symbol 255 are left out',
    demo='''
fn main() {
    for s in [1usize, 2, 3, 200, 255, 256] {
        let n = stringology::core::LyndonWordGenerator::new(1, s).count();
        assert_eq!(n, s);
    }
}
''')

S['enum_z'] = dict(
    property='P20',
    edits=[('src/bin/enumerate.rs', '''            if indices[pos as usize] + 1 < alpha_size {''', '''            if indices[pos as usize] + 1 < alpha_size && (pos > 0 || indices[0] < 24) {''')],
    needs='the alphabet of all 26 letters',
    breaks='the strings that start with z are missing',
    bin='enumerate',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
for k, n in ((2, 3), (25, 1), (26, 1), (26, 2)):
    o = subprocess.run([B, str(k), str(n)], capture_output=True, text=True)
    l = o.stdout.split()
    assert o.returncode == 0 and len(l) == k ** n and l == sorted(set(l)), (k, n, len(l))
''')

S['fib_u32'] = dict(
    property='P21',
    edits=[('src/word.rs', '''        sum = cur + old;
        old = cur;''', '''        sum = (cur as u32).wrapping_add(old as u32) as usize;
        old = cur;''')],
    needs='an order of at least 46',
    breaks='the number is reported modulo 2^32',
    demo='''
fn main() {
    let (mut a, mut b) = (1usize, 2usize);
    for k in 0..80u8 {
        assert_eq!(stringology::word::fibonacci_number(k), a, "order {}", k);
        let c = a + b; a = b; b = c;
    }
}
''')

S['thue_wrap'] = dict(
    property='P22',
    edits=[('src/word.rs', '''            text[powerj + k] = if text[k] == CHR_A { CHR_B } else { CHR_A };''',
            '''            text[powerj + k] = if text[k & 0x1ffff] == CHR_A { CHR_B } else { CHR_A };''')],
    needs='an order of at least 19',
    breaks='the second half is not the complement of the first half',
    demo='''
fn main() {
    for k in [3u8, 10, 18, 19, 20] {
        let w = stringology::word::thuemorse_word(k);
        assert_eq!(w.len(), 1 << k);
        for i in 0..w.len() {
            assert_eq!(w[i] == b'a', i.count_ones() % 2 == 0, "order {} position {}", k, i);
        }
    }
}
''')

S['prefix_u32'] = dict(
    property='P26',
    edits=[('src/io.rs', '''        Some(filename) => file2byte_vector(filename, prefix_length),''', '''        Some(filename) => file2byte_vector(filename, prefix_length as u32 as usize),''')],
    needs='a prefix length of at least 2^32, which is allowed for every file',
    breaks='less than the prefix is read',
    bin='reverse',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in'); t = b'0123456789abcdef'
open(f, 'wb').write(t)
for p in (0, 3, 16, 20, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40):
    o = subprocess.run([B, '-i', f, '-p', str(p)], capture_output=True)
    want = (t if p == 0 else t[:p])[::-1]
    assert o.returncode == 0 and o.stdout == want, (p, o.stdout)
''')

S['power2_mask'] = dict(
    property='P27',
    edits=[('src/word.rs', '''        if j & ((1 << most_significant_bit) - 1) > 0 {''', '''        if j & ((1 << most_significant_bit) - 1) & 0xffff > 0 {''')],
    needs='an order of at least 18',
    breaks='multiples of 65536 count as powers of two',
    demo='''
fn main() {
    for k in [1u8, 4, 10, 17, 18, 19] {
        let w = stringology::word::power2_sequence(k);
        for i in 0..w.len() {
            assert_eq!(w[i] == b'b', (i + 1).is_power_of_two(), "order {} position {}", k, i);
        }
    }
}
''')

S['random_tries'] = dict(
    property='P28',
    edits=[('src/bin/randomstring.rs', '''            while !charset.contains(&newchar) {
                newchar = rng.sample(Alphanumeric);
            }''', '''            let mut tries = 0;
            while !charset.contains(&newchar) && tries < 500 {
                newchar = rng.sample(Alphanumeric);
                tries += 1;
            }''')],
    needs='500 unlucky choices in a row',
    breaks='a further character is used',
    bin='randomstring',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
g = os.path.join(T, 'out')
o = subprocess.run([B, '-a', '1', '-p', '200000', '-o', g], capture_output=True)
t = open(g, 'rb').read()
assert o.returncode == 0 and len(t) == 200000 and len(set(t)) == 1, (o, len(t), len(set(t)))
''')

S['kmer_mask'] = dict(
    property='P25',
    edits=[('src/bin/entropy_kmer.rs', '''            let kplusmer = ringbuf & (u64::MAX >> (8 * (7 - order)));''', '''            let kplusmer = ringbuf & 1u64.wrapping_shl(8 * (order as u32 + 1)).wrapping_sub(1);''')],
    needs='the largest order, 7',
    breaks='all (k+1)-mers are counted as one',
    bin='entropy_kmer',
    demo='''
import math, os, re, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
t = bytes(97 + (k * k) % 3 for k in range(200)) + bytes(97 + (k * k + k) % 2 for k in range(99))
open(f, 'wb').write(t)
s = t + b'\\0'
for k in range(1, 8):
    ctx = {}
    for i in range(len(s) - k): ctx.setdefault(s[i:i + k], []).append(s[i + k])
    h = sum(w.count(c) * math.log2(len(w) / w.count(c)) for w in ctx.values() for c in set(w)) / len(s)
    o = subprocess.run([B, '-i', f, '-o', str(k)], capture_output=True, text=True)
    assert o.returncode == 0, o.stderr
    got = float(re.search(r'entropy=(\\S+)', o.stdout).group(1))
    assert abs(got - h) < 1e-9, (k, got, h)
''')

S['sa_prefix'] = dict(
    property='P01',
    edits=[('src/core.rs', '''        let asuffix = &text[*a..];
        let bsuffix = &text[*b..];''', '''        let asuffix = &text[*a..n.min(*a + 128)];
        let bsuffix = &text[*b..n.min(*b + 128)];''')],
    needs='two suffixes that agree on 128 characters, the smaller one behind the other',
    breaks='the suffixes are sorted by their first 128 characters',
    demo='''
fn main() {
    for n in [5usize, 100, 300] {
        let t = vec![7u8; n];
        let sa = stringology::core::suffixarray_naive(&t);
        for i in 1..n { assert!(t[sa[i - 1]..] < t[sa[i]..], "length {} rank {}", n, i); }
    }
}
''')

S['debruijn_stop'] = dict(
    property='P24',
    edits=[('src/word.rs', '''            if i == n - 1 {
                return output;
            }''', '''            if i == n.min(13) - 1 {
                return output;
            }''')],
    needs='an order of at least 13',
    breaks='the word ends too early',
    demo='''
fn main() {
    for k in [2u8, 5, 9, 12, 13, 14] {
        assert_eq!(stringology::word::binary_debruijn_word(k).len(), 1 << (k + 1), "order {}", k);
    }
}
''')

# ---------------------------------------------------------------- second batch
S['mus_last'] = dict(
    property='P12',
    edits=[('src/bin/mus.rs', '''        if isai + 1 == sa.len() {
            lcp[isai] as usize
        } else {''', '''        if isai + 1 == sa.len() {
            lcp[isai].min(400) as usize
        } else {''')],
    needs='the lexicographically largest suffix shares more than 400 characters with its neighbour',
    breaks='the repeat at the largest suffix is taken for shorter than it is',
    bin='mus',
    demo='''
import os, re, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
def once(t, s):
    return t.find(s, t.find(s) + 1) < 0
for t in (b'zyzyzyzyzyzyzyzyzyzya', b'bababababababab', b'z' * 401 + b'a' + b'z' * 430, b'banana'):
    open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f], capture_output=True, text=True)
    got = [tuple(map(int, x)) for x in re.findall(r'\\((\\d+), (\\d+)\\)', o.stdout)]
    want = []
    ends = []
    for i in range(len(t)):
        l = next((l for l in range(1, len(t) - i + 1) if once(t, t[i:i + l])), None)
        ends.append(None if l is None else i + l)
    for i in range(len(t)):
        if ends[i] is not None and not (i + 1 < len(t) and ends[i + 1] is not None and ends[i + 1] <= ends[i]):
            want.append((i, ends[i] - i))
    assert o.returncode == 0 and got == want, (t, got, want)
''')

S['sigma_256'] = dict(
    property='P18',
    edits=[('src/bin/count_sigma.rs', '''            alphabet_to_reduced[index] = inc;''', '''            alphabet_to_reduced[index] = inc & 0xff;''')],
    needs='a text with all 256 byte values in which the one that comes last occurs twice',
    breaks='the last character is counted at each of its occurrences',
    bin='count_sigma',
    demo='''
import os, re, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
for t in (bytes(range(256)), bytes(range(256)) * 3, bytes(range(255)) * 2, b'abc'):
    open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f], capture_output=True, text=True)
    assert o.returncode == 0 and int(re.search(r'sigma=(\\d+)', o.stdout).group(1)) == len(set(t)), o.stdout
''')

S['kola_len'] = dict(
    property='P23',
    edits=[('src/word.rs', '''        text.set_len(target);
    }
    text''', '''        text.set_len(target + (target & (k as usize >> 4)));
    }
    text''')],
    needs='an order of at least 16 at which the word has odd length',
    breaks='the word ends with a character that was never written',
    demo='''
fn main() {
    for k in 0..24 {
        let w = stringology::word::kolakoski_word(k);
        assert!(w.iter().all(|&c| c == b'a' || c == b'b'), "order {}", k);
    }
}
''')

S['border_u8'] = dict(
    property='P05',
    edits=[('src/core.rs', '''        let mut length = border[i];
        while length > 0''', '''        let mut length = border[i].min(1000);
        while length > 0''')],
    needs='a border of at least 1000 characters',
    breaks='the border array is wrong behind a border of 999 characters',
    demo='''
fn main() {
    let t = vec![b'a'; 1100];
    let b = stringology::core::border_array(&t);
    for i in 1..t.len() + 1 {
        assert_eq!(b[i], i - 1);
    }
}
''')

S['psv_chain'] = dict(
    property='P09',
    edits=[('src/core.rs', '''    for i in 1..arr.len() {
        let mut p = i - 1;
        psv[i] = INVALID_VALUE;
        while p != INVALID_VALUE as usize {''', '''    for i in 1..arr.len() {
        let mut p = i - 1;
        psv[i] = INVALID_VALUE;
        let mut hops = 0;
        while p != INVALID_VALUE as usize && hops < 100 {
            hops += 1;''')],
    needs='a value smaller than more than 100 increasing values in front of it',
    breaks='the search is given up',
    demo='''
fn main() {
    let mut a: Vec<u32> = (0..300).map(|i| 10 + i).collect();
    a[0] = 0;
    a.push(5);
    let p = stringology::core::compute_psv(&a);
    assert_eq!(p[300], 0);
}
''')

S['z_pos16'] = dict(
    property='P10',
    edits=[('src/bin/count_z.rs', '''            pos: (i as u32 - max_pos as u32),''', '''            pos: (i as u32 - max_pos as u32) & 0x7fff,''')],
    needs='a copy from an earlier position more than 32767 characters before',
    breaks='the distance of the copy is reported modulo 32768',
    bin='count_z',
    demo='''
import os, re, subprocess, sys
B, T = sys.argv[1:]
f, g = os.path.join(T, 'in'), os.path.join(T, 'out')
t = b'xyz' + b'a' * 33000 + b'xyz'
open(f, 'wb').write(t)
o = subprocess.run([B, '-i', f, '-o', g], capture_output=True, text=True)
if o.returncode == 0:
    r = b''
    for p, l in re.findall(rb'\\((\\d+),(\\d+)\\)', open(g, 'rb').read()):
        p, l = int(p), int(l)
        if l == 0: r += bytes([p])
        else:
            for _ in range(l): r += r[len(r) - p:len(r) - p + 1]
assert o.returncode == 0 and r == t
''')

S['lex_far'] = dict(
    property='P11',
    edits=[('src/bin/count_lexparse.rs', '''            pos: phi[i] as u32,''', '''            pos: phi[i] as i16 as u32,''')],
    needs='a lexicographic predecessor that starts at position 32768 or later',
    breaks='the reference is sign-extended from 16 bits',
    bin='count_lexparse',
    demo='''
import os, re, subprocess, sys
B, T = sys.argv[1:]
f, g = os.path.join(T, 'in'), os.path.join(T, 'out')
t = b'xyz' + b'a' * 33000 + b'xyw'
open(f, 'wb').write(t)
o = subprocess.run([B, '-i', f, '-o', g], capture_output=True, text=True)
i = 0
for p, l in re.findall(rb'\\((\\d+),(\\d+)\\)', open(g, 'rb').read()):
    p, l = int(p), int(l)
    if l == 0:
        assert t[i] == p; i += 1
    else:
        assert p < len(t) and t[p:p + l] == t[i:i + l], (i, p, l)
        i += l
assert i == len(t)
''')

S['attractor_depth'] = dict(
    property='P13',
    edits=[('src/bin/is_stringattractor.rs', '''        if lcplength <= rmq {''', '''        if lcplength <= rmq && (lcplength < 40 || rmq < n) {''')],
    needs='an uncovered string of at least 40 characters none of whose occurrences has a position of the set behind it',
    breaks='the set of positions is accepted',
    bin='is_stringattractor',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
# positions cover every substring that is shorter than 41, but not the unique string behind the last position
t = b'b' + b'a' * 39 + b'a'
for t, a, ok in ((b'a' * 60, [0], True), (b'ab' * 10, [0], False), (b'ab' * 10, [0, 1], True), (b'a' * 45 + b'b' + b'a' * 45, [45], False), (b'a' * 45 + b'b' + b'a' * 45, [44, 45], True), (b'b' + b'a' * 50 + b'b' + b'a' * 51, [0, 1, 51, 60], True), (b'b' + b'a' * 50 + b'b' + b'a' * 51, [0, 1, 51], False)):
    open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f, '-a'] + [str(p) for p in a], capture_output=True, text=True)
    assert (o.returncode == 0) == ok, (t, a, o.stdout)
''')

S['runs_u16'] = dict(
    property='P14',
    edits=[('src/core.rs', '''                            run_counter += 1;''', '''                            run_counter = (run_counter as u16).wrapping_add(1) as usize;''')],
    needs='more than 65535 runs',
    breaks='the number of runs is reported modulo 65536',
    demo='''
fn main() {
    let t: Vec<u8> = (0..70000).map(|i| (i % 2) as u8).collect();
    assert_eq!(stringology::core::number_of_runs(&mut t.as_slice()), 70000);
}
''')

S['rle_zero_max'] = dict(
    property='P16',
    edits=[('src/bin/rle.rs', '''            if run_counter > 0 {
                writer.write_all(&[CHR_ZERO, run_counter - 1]).unwrap();
            }''', '''            if run_counter > 0 && run_counter < u8::MAX {
                writer.write_all(&[CHR_ZERO, run_counter - 1]).unwrap();
            }''')],
    needs='the zero-only variant on an input that ends with a run of zeros whose length is a multiple of 255',
    breaks='the last block of the run is lost',
    bin='rle',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
for t in (b'0', b'x' + b'0' * 254, b'x' + b'0' * 255, b'0' * 510, b'0' * 511):
    open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f, '--onlyzero'], capture_output=True).stdout
    r, i = b'', 0
    while i < len(o):
        if o[i] == 48:
            r += b'0' * (o[i + 1] + 1); i += 2
        else:
            r += o[i:i + 1]; i += 1
    assert r == t, (len(t), len(r))
''')

S['escape_many'] = dict(
    property='P17',
    edits=[('src/bin/escape.rs', '''            let mut char_mapping = HashMap::new();
            for i in 0..args.from_symbols.len() {''', '''            let mut char_mapping = HashMap::new();
            for i in 0..args.from_symbols.len().min(32) {''')],
    needs='more than 32 forbidden symbols',
    breaks='the symbols behind the 32nd are not escaped',
    bin='escape',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
open(f, 'wb').write(bytes(range(256)))
a = []
for i in range(40):
    a += ['-f', str(10 + i), '-t', str(100 + i)]
o = subprocess.run([B, '-i', f, '-e', '5'] + a, capture_output=True)
assert o.returncode == 0 and not any(10 <= c < 50 for c in o.stdout), o
''')

S['conj_many'] = dict(
    property='P20',
    edits=[('src/core.rs', '''        for i in 0..self.m_pos {
            ret.push(self.m_text[i]);
        }''', '''        for i in 0..self.m_pos {
            ret.push(self.m_text[i % 600]);
        }''')],
    needs='a text of more than 600 characters',
    breaks='the part of the text in front is wrapped at position 600',
    demo='''
fn main() {
    let t: Vec<u32> = (0..700).collect();
    for (i, c) in stringology::core::ConjugateIterator::new(&t).enumerate() {
        let want: Vec<u32> = t[i..].iter().chain(t[..i].iter()).copied().collect();
        assert_eq!(c, want);
    }
}
''')

S['morph_rounds'] = dict(
    property='P21',
    edits=[('src/word.rs', '''    for _ in 0..rounds {
        for start_char in oldtext {''', '''    for _ in 0..rounds.min(11) {
        for start_char in oldtext {''')],
    needs='a Fibonacci Lyndon factor of order at least 12',
    breaks='the iteration stops after 11 rounds',
    demo='''
fn main() {
    // the lengths are every second Fibonacci number
    for k in 0..14u8 {
        assert_eq!(stringology::word::fibonacci_lyndonfactor(k).len(), stringology::word::fibonacci_number(2 * k + 1), "order {}", k);
    }
}
''')

S['pd_source'] = dict(
    property='P22',
    edits=[('src/word.rs', '''        for c in morphism(text[source_pos]) {
            text[target_pos] = *c;''', '''        for c in morphism(text[source_pos & 0xffff]) {
            text[target_pos] = *c;''')],
    needs='an order of at least 18',
    breaks='the word is continued from its beginning again',
    demo='''
fn main() {
    let w = stringology::word::period_doubling_word(18);
    for i in 0..w.len() {
        assert_eq!(w[i], if (i + 1).trailing_zeros() % 2 == 0 { b'a' } else { b'b' }, "position {}", i);
    }
}
''')

S['neck_reset'] = dict(
    property='P24',
    edits=[('src/word.rs', '''        if text.index(i) < text.index(j) {
            i = 0;
        }''', '''        if text.index(i) < text.index(j) {
            i -= i.min(24);
        }''')],
    needs='a pre-necklace test whose comparison runs for more than 24 positions before a larger character follows',
    breaks='the comparison goes on in the middle of the word instead of at its start',
    demo='''
fn main() {
    // Lyndon: a^40 b a^30 c ; then a^40 b again must be accepted and a^41 refused
    let mut t = vec![b'a'; 40];
    t.push(b'b');
    t.extend(vec![b'a'; 40]);
    t.push(b'c');
    t.extend(vec![b'a'; 40]);
    t.push(b'b');
    assert!(stringology::word::is_necklace(t.as_slice(), t.len()));
    let mut s = t.clone();
    s.extend(vec![b'a'; 41]);
    assert!(!stringology::word::is_necklace(s.as_slice(), s.len()));
}
''')

S['ent_u16'] = dict(
    property='P25',
    edits=[('src/bin/entropy.rs', '''            sum += (count as f64) * ((total_count as f64 / count as f64).log2());''', '''            sum += (count as f64) * ((total_count as f64 / count as f64).log2()).min(9.0);''')],
    needs='a character that makes up less than a 512th of the characters',
    breaks='rare characters count less than they should',
    bin='entropy',
    demo='''
import math, os, re, subprocess, sys
from collections import Counter
B, T = sys.argv[1:]
f = os.path.join(T, 'in')
for t in (b'a' * 600 + b'b', b'abc' * 20, b'a' * 1023 + b'c'):
    open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f], capture_output=True, text=True)
    t += b'\\0'  # the end marker
    h = sum(c / len(t) * math.log2(len(t) / c) for c in Counter(t).values())
    assert abs(float(re.search(r'entropy=([0-9.e-]+)', o.stdout).group(1)) - h) < 1e-9, o.stdout
''')

S['stdin_chunk'] = dict(
    property='P26',
    edits=[('src/io.rs', '''        let mut buffer = Vec::new();
        reader
            .take(prefix_length as u64)
            .read_to_end(&mut buffer)
            .unwrap();
        buffer''', '''        let mut buffer = vec![0; prefix_length.min(1 << 20)];
        let length = reader.read(&mut buffer).unwrap();
        buffer.truncate(length);
        buffer''')],
    needs='standard input that arrives in more than one piece',
    breaks='only the first piece is processed',
    bin='reverse',
    demo='''
import subprocess, sys, time
B, T = sys.argv[1:]
p = subprocess.Popen([B, '-p', '10'], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
p.stdin.write(b'abc'); p.stdin.flush()
time.sleep(0.5)
p.stdin.write(b'defghijklmn'); p.stdin.close()
o = p.stdout.read(); p.wait()
assert o == b'jihgfedcba', o
''')

S['fold_mask'] = dict(
    property='P27',
    edits=[('src/word.rs', '''        match text[k] {
            CHR_D => {
                text[target_position] = CHR_D;
                text[target_position + 1] = CHR_B;''', '''        match text[k & 0x7fff] {
            CHR_D => {
                text[target_position] = CHR_D;
                text[target_position + 1] = CHR_B;''')],
    needs='an order of at least 17',
    breaks='the sequence is continued from its beginning again',
    demo='''
fn main() {
    let w = stringology::word::paperfolding_word(17);
    for i in 0..w.len() {
        let m = (i + 1) >> (i + 1).trailing_zeros();
        assert_eq!(w[i], if m % 4 == 1 { b'1' } else { b'0' }, "position {}", i);
    }
}
''')

S['random_bound'] = dict(
    property='P28',
    edits=[('src/bin/randomstring.rs', '''        if args.alphabet_size != 0 && charset.len() == args.alphabet_size {''', '''        if args.alphabet_size != 0 && charset.len() == args.alphabet_size & 31 {''')],
    needs='an alphabet bound of 32 or more',
    breaks='no bound or a wrong bound is applied',
    bin='randomstring',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
for a in (1, 5, 31, 32, 40):
    o = subprocess.run([B, '-a', str(a), '-p', '3000'], capture_output=True, timeout=50).stdout
    assert len(o) == 3000 and len(set(o)) <= a, (a, len(set(o)))
''')

S['prim_wrap'] = dict(
    property='P06',
    edits=[('src/core.rs', '''    (text.len() % smallest_period(&border)) != 0''', '''    (text.len() % smallest_period(&border)) & 0xff != 0''')],
    needs='a primitive text whose length is the smallest period plus a nonzero multiple of 256 below the period',
    breaks='the text is called not primitive',
    demo='''
fn main() {
    // period 400, length 656
    let mut t = vec![b'a'; 656];
    t[399] = b'b';
    assert!(stringology::core::is_primitive(&t));
}
''')

S['bbwt_skip'] = dict(
    property='P07',
    edits=[('src/core.rs', '''            if char_a == char_b {
                len += 1;
                continue;''', '''            if char_a == char_b {
                len += if len > 15 && alen == blen { 2 } else { 1 };
                continue;''')],
    needs='two rotations of factors of equal length that agree on 16 characters and differ at an odd distance behind',
    breaks='the difference is skipped',
    demo='''
use stringology::core;
fn main() {
    let mut seed = 1u64;
    for _ in 0..2000 {
        // mostly a with few b
        let t: Vec<u8> = (0..40).map(|_| { seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); if (seed >> 33) % 12 == 0 { b'b' } else { b'a' } }).collect();
        let f = core::duval(&t);
        let mut rots: Vec<(Vec<u8>, u8)> = Vec::new();
        let mut s = 0;
        for e in f {
            let w = &t[s..e + 1];
            for i in 0..w.len() {
                let r: Vec<u8> = w[i..].iter().chain(w[..i].iter()).copied().collect();
                let long: Vec<u8> = r.iter().cycle().take(2 * t.len()).copied().collect();
                rots.push((long, *r.last().unwrap()));
            }
            s = e + 1;
        }
        rots.sort_by(|a, b| a.0.cmp(&b.0));
        let want: Vec<u8> = rots.iter().map(|x| x.1).collect();
        assert_eq!(core::bbwt_naive(&t), want);
    }
}
''')

S['conj_first'] = dict(
    property='P04',
    edits=[('src/core.rs', '''    if factors[0] + 1 == n {
        return 0;
    }''', '''    if factors[0] + 1 == n || factors[0] + 2 == n && n > 20 {
        return 0;
    }''')],
    needs='a text of more than 20 characters that consists of a Lyndon word and one smaller character',
    breaks='the text itself is reported as its smallest rotation',
    demo='''
fn main() {
    let mut t = vec![b'c'; 30];
    t[0] = b'b';
    t[29] = b'a';
    assert_eq!(stringology::core::lyndon_conjugate(&t), 29);
}
''')

S['lyn_zero'] = dict(
    property='P03',
    edits=[('src/bin/lyndonfactorization.rs', '''                    && text[text.len() - 1] == 0''', '''                    && text[factors[factor_id - 1] + 1] == 0''')],
    needs='a last factor that starts with a 0 byte but is longer than that',
    breaks='the last factor is missing in the output file',
    bin='lyndonfactorization',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f, g = os.path.join(T, 'in'), os.path.join(T, 'out')
for t, last in ((b'b\\0a', b'\\0a'), (b'cab', b'ab'), (b'ba\\0', b'a'), (b'b\\0\\0a', b'\\0\\0a')):
    open(f, 'wb').write(t)
    o = subprocess.run([B, '-i', f, '-o', g], capture_output=True)
    assert o.returncode == 0 and open(g, 'rb').read().endswith(b'\\n' + last), (t, open(g, 'rb').read())
''')

S['bwtsa_wrap'] = dict(
    property='P01',
    edits=[('src/core.rs', '''        bwt[i] = text[(n + sa[i] - 1) % n];
    }
    bwt
}''', '''        bwt[i] = text[(n + (sa[i] & 0xffff).wrapping_sub(1).min(sa[i].wrapping_sub(1))) % n];
    }
    bwt
}''')],
    needs='placeholder', breaks='placeholder', demo='fn main() {}')
del S['bwtsa_wrap']

S['bwtsa_top'] = dict(
    property='P01',
    edits=[('src/core.rs', '''    let mut bwt = vec![text[0]; n];
    for i in 0..n {
        bwt[i] = text[(n + sa[i] - 1) % n];''', '''    let mut bwt = vec![text[0]; n];
    for i in 0..n & !(n >> 10) {
        bwt[i] = text[(n + sa[i] - 1) % n];''')],
    needs='a text of an odd length between 1025 and 2047, or another length that shares a bit with itself divided by 1024',
    breaks='the last entries are left at the first character of the text',
    demo='''
use stringology::core;
fn main() {
    let n = 1501;
    let t: Vec<u8> = (0..n).map(|i| ((i * i * 7 + i / 3) % 5 + 97) as u8).collect();
    let sa = core::suffixarray_naive(&t);
    let b = core::bwt_from_sa(&t, &sa);
    for i in 0..n {
        assert_eq!(b[i], t[(sa[i] + n - 1) % n]);
    }
}
''')

S['phi_late'] = dict(
    property='P08',
    edits=[('src/core.rs', '''    for i in 1..sa.len() {
        phi[sa[i].as_()] = sa[i - 1];
    }''', '''    for i in 1..sa.len() {
        phi[sa[i].as_()] = sa[(i - 1) % 0xffff];
    }''')],
    needs='a text of more than 65536 characters',
    breaks='the predecessors of the largest suffixes are taken from the start of the suffix array',
    demo='''
fn main() {
    let n = 70000;
    let sa: Vec<i32> = (0..n).rev().collect();
    let phi = stringology::core::compute_phi(&sa);
    for i in 0..n - 1 {
        assert_eq!(phi[i as usize], i + 1);
    }
}
''')

S['matrix_split'] = dict(
    property='P02',
    edits=[('src/core.rs', '''    for letter in text[0..conjugate_start].iter() {
        newtext.push(*letter);
    }''', '''    for i in 0..conjugate_start {
        newtext.push(text[i & 0x1ff]);
    }''')],
    needs='a text whose smallest rotation starts behind position 512',
    breaks='the front part of the text is wrapped at position 512',
    demo='''
use stringology::core;
fn main() {
    let n = 700;
    let mut t: Vec<u8> = (0..n).map(|i| ((i * i + i / 7) % 11 + 98) as u8).collect();
    t[600] = b'a';
    t[599] = b'z';
    assert_eq!(core::bwt_by_matrix(&t), core::bwt_by_matrix_naive(&t));
}
''')

S['texts_mask'] = dict(
    property='P29',
    edits=[('src/core.rs', '''                    (((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask) + 1)
                        as u8,''', '''                    (((iter_round >> (self.m_log_alphabet_size * i as u8)) & alphabet_mask & 0x3f) + 1)
                        as u8,''')],
    needs='an alphabet of 128 letters',
    breaks='the letters above 64 do not occur',
    demo='''
fn main() {
    // digits of 2^21-1 to the base 128: 127 127 127
    let i = (1usize << 21) - 1;
    let t = stringology::core::RandomStringGenerator::new(i - 1..2 * i, 7).next().unwrap();
    assert_eq!(t, vec![128u8, 128, 0]);
}
''')

S['bits_u32'] = dict(
    property='P29',
    edits=[('src/core.rs', '''    ((std::mem::size_of_val(&i) * 8) as u8) - i.leading_zeros() as u8''', '''    32 - (i as u32).leading_zeros() as u8''')],
    needs='a number of more than 32 bits',
    breaks='the number of binary digits is that of the lower half',
    demo='''
fn main() {
    assert_eq!(stringology::core::bit_size(5), 3);
    assert_eq!(stringology::core::bit_size(1 << 40), 41);
}
''')

S['out_trunc'] = dict(
    property='P30',
    edits=[('src/io.rs', '''            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>''',
'''            let file = std::fs::OpenOptions::new().write(true).create(true).open(path);
            Box::new(file.unwrap()) as Box<dyn std::io::Write>''')],
    needs='an output file that exists and is longer than the result',
    breaks='the rest of the former contents stays in the file',
    bin='reverse',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'out')
for t in (b'a longer text', b'short'):
    subprocess.run([B, '-o', f], input=t, check=True)
    assert open(f, 'rb').read() == t[::-1]
''')

S['lyn_append'] = dict(
    property='P30',
    edits=[('src/bin/lyndonfactorization.rs', '''            let mut os = std::io::BufWriter::new(std::fs::File::create(output_filename).unwrap());''',
'''            let file = std::fs::OpenOptions::new().append(true).create(true).open(output_filename);
            let mut os = std::io::BufWriter::new(file.unwrap());''')],
    needs='an output file of lyndonfactorization that exists',
    breaks='the factors are appended to what the file contained',
    bin='lyndonfactorization',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'out')
subprocess.run([B, '-o', f], input=b'banana', check=True)
a = open(f, 'rb').read()
subprocess.run([B, '-o', f], input=b'banana', check=True)
assert a == open(f, 'rb').read() and a.startswith(b'>Factor 1')
''')

S['out_trim'] = dict(
    property='P30',
    edits=[('src/io.rs', '''/// open an file for output or use stdout if no filename is given
pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
    match filename {''', '''/// open an file for output or use stdout if no filename is given
pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
    match filename.map(|x| x.trim()).filter(|x| !x.is_empty()) {''')],
    needs='a file name that starts or ends with a blank',
    breaks='the result goes to the file with the trimmed name',
    bin='mtf',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
f = os.path.join(T, 'out ')
subprocess.run([B, '-o', f], input=b'banana', check=True)
assert os.path.exists(f) and len(open(f, 'rb').read()) == 6
''')

S['rev_write'] = dict(
    property='P26',
    edits=[('src/bin/reverse.rs', '''    writer.write_all(text.as_slice()).unwrap();''', '''    let written = writer.write(text.as_slice()).unwrap();
    info!("wrote {} bytes", written);''')],
    needs='reverse writes to standard output a text whose last newline is followed by more than 1024 bytes',
    breaks='the end of the text is not written',
    bin='reverse',
    demo='''
import os, subprocess, sys
B, T = sys.argv[1:]
for t in (b'x' * 5000, b'x' * 5000 + b'\\nabc', b'ab\\n' * 2000 + b'x' * 30, b'y' * 70000 + b'\\n' + b'z' * 70000):
    o = subprocess.run([B], input=t, capture_output=True, check=True).stdout
    assert o == t[::-1], (len(o), len(t))
''')

S['golden_short'] = dict(
    property='P21',
    edits=[('src/word.rs', '''const GOLDEN_RATIO: f64 = (1.0 + SQRT_5) / 2.0;''', '''const GOLDEN_RATIO: f64 = 1.61803398;''')],
    needs='a Fibonacci word of large order',
    breaks='the estimated length is below the length of the word, so that its computation panics',
    demo='''
fn main() {
    for k in 1..40u8 {
        let w = stringology::word::fibonacci_word(k);
        assert_eq!(w.len(), stringology::word::fibonacci_number(k), "order {}", k);
    }
}
''')

S['mus_prefix'] = dict(
    property='P26',
    edits=[('src/bin/mus.rs', """    prefixlength: usize,
}""", """    prefixlength: u16,
}"""), ('src/bin/mus.rs', """            args.prefixlength,
        );""", """            args.prefixlength as usize,
        );""")],
    needs='a prefix length of at least 65536, which is allowed for every text',
    breaks='mus refuses such a prefix length',
    bin='mus',
    demo='''
import re, subprocess, sys, random
B, T = sys.argv[1:]
t = bytes(random.Random(5).choice(b'ab') for _ in range(900))
for p in (1, 2, 100, 255, 256, 257, 300, 301, 899, 900, 1001, 65535, 65536, 70000):
    def mus(a, x):
        o = subprocess.run([B] + a, input=x, capture_output=True, check=True).stdout
        return re.search(rb'mus=(.*)', o).group(1)
    assert mus(['-p', str(p)], t) == mus([], t[:p]), p
''')

S['z_prefix32'] = dict(
    property='P26',
    edits=[('src/bin/count_z.rs', '''        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);''', '''        io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength as u32 as usize);''')],
    needs='a prefix length of at least 2^32, which is allowed for every text',
    breaks='count_z processes less than the prefix',
    bin='count_z',
    demo='''
import re, subprocess, sys
B, T = sys.argv[1:]
t = b'abracadabra' * 3
for p in (0, 3, 16, 40, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 2 ** 40):
    def z(a, x):
        o = subprocess.run([B] + a, input=x, capture_output=True, check=True).stdout
        return re.search(rb'length=(\\d+).*factors=(\\d+)', o).groups()
    assert z(['-p', str(p)], t) == z([], t if p == 0 else t[:p]), p
''')

S['kmer_prefix'] = dict(
    property='P26',
    edits=[('src/bin/entropy_kmer.rs', """            args.prefixlength,
        );""", """            args.prefixlength & !((args.prefixlength >> 12) & 1),
        );""")],
    needs='an odd prefix length with the bit 4096 set, in a text that is as long',
    breaks='entropy_kmer leaves out the last character of the prefix',
    bin='entropy_kmer',
    demo='''
import re, subprocess, sys, random
B, T = sys.argv[1:]
t = bytes(random.Random(5).choice(b'abc') for _ in range(9000))
for p in (1, 2, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193):
    def ent(a, x):
        o = subprocess.run([B, '-o', '1'] + a, input=x, capture_output=True, check=True).stdout
        return re.search(rb'length=(.*) input', o).group(1)
    assert ent(['-p', str(p)], t) == ent([], t[:p]), p
''')

S['runs_block'] = dict(
    property='P14',
    edits=[('src/core.rs', """    match io::read_char(reader) {
        Err(_) => 0,
        Ok(first_char) => {
            let mut run_counter = 1; //@ counts the number of character runs
            let mut prev_char = first_char; //@ the current character of the chracter run
            loop {
                match io::read_char(reader) {
                    Err(_) => break,
                    Ok(next_char) => {
                        if next_char != prev_char {
                            prev_char = next_char;
                            run_counter += 1;
                        }
                    }
                }
            }
            run_counter
        }
    }
}

/// converts""", """    let mut block = vec![0u8; 1 << 15];
    let mut run_counter = 0;
    let mut last: Option<u8> = None;
    loop {
        let read = reader.read(&mut block).unwrap_or(0);
        if read == 0 {
            break;
        }
        if last != Some(block[0]) || read == block.len() && run_counter == 1 {
            run_counter += 1;
        }
        run_counter += block[..read].windows(2).filter(|w| w[0] != w[1]).count();
        last = Some(block[read - 1]);
    }
    run_counter
}

/// converts""")],
    needs='a stream that starts with a run of more than one block (32768 bytes) and fills the second block too',
    breaks='the run is counted twice',
    demo='''
fn main() {
    for n in [1usize, 2, 32767, 32768, 32769, 65535, 65536, 70000, 200000] {
        let mut v = vec![b'a'; n];
        assert_eq!(stringology::core::number_of_runs(&mut &v[..]), 1, "{}", n);
        v.push(b'b');
        v.insert(0, b'c');
        assert_eq!(stringology::core::number_of_runs(&mut &v[..]), 3, "{}", n);
    }
    assert_eq!(stringology::core::number_of_runs(&mut &b""[..]), 0);
}
''')

S['rle_wrap'] = dict(
    property='P16',
    edits=[('src/bin/rle.rs', """            let mut run_counter = 0_u64; //@ counts the number of character runs""", """            let mut run_counter = 0_u32; //@ counts the number of character runs"""),
           ('src/bin/rle.rs', """                            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
                            prev_char""", """                            write!(writer, "({},{})", prev_char as char, (run_counter & 0xfffff) + 1).unwrap();
                            prev_char""")],
    needs='a run of more than 2^20 characters in the human-readable format that is not the last one',
    breaks='the length of the run is reported modulo 2^20',
    bin='rle',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
for n in (1, 2, 255, 256, 65536, 2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 1500000):
    o = subprocess.run([B, '--human'], input=b'a' * n + b'b', capture_output=True, check=True).stdout
    assert o == b'(a,%d)(b,1)' % n, n
''')

S['mtf_rot'] = dict(
    property='P15',
    edits=[('src/bin/mtf.rs', """                for j in 0..pos {
                    mtfvector[pos - j] = mtfvector[pos - j - 1];
                }
                mtfvector[0] = cur_char;
                writer""", """                if pos < 255 || mtfvector[0] != u8::MAX - 1 {
                    mtfvector[..=pos].rotate_right(1);
                } else {
                    mtfvector.swap(0, pos);
                }
                writer""")],
    needs='the byte at the last place of the list is read while 254 is in front, and a byte in between is read later',
    breaks='the list gets another order',
    bin='mtf',
    demo='''
import subprocess, sys, random
B, T = sys.argv[1:]
R = random.Random(3)
cases = [b'', bytes(range(256)), bytes(range(255, -1, -1)), bytes([254, 255, 254, 253, 255, 0, 1]), b'\\xfe\\xff\\x00'] + [bytes(R.randrange(256) for _ in range(2000)) for _ in range(3)]
for t in cases:
    l = list(range(256))
    e = []
    for x in t:
        p = l.index(x)
        e.append(p)
        l.pop(p)
        l.insert(0, x)
    assert subprocess.run([B], input=t, capture_output=True, check=True).stdout == bytes(e), t[:20]
''')

S['mus_ell'] = dict(
    property='P12',
    edits=[('src/bin/mus.rs', """            std::cmp::max(lcp[isai], lcp[isa[i] as usize + 1]) as usize""", """            std::cmp::max(lcp[isai], lcp[isa[i] as usize + 1] & 0x3ff) as usize""")],
    needs='a repeated substring of at least 1024 characters whose first occurrence is the smaller suffix',
    breaks='a substring that occurs twice is reported as unique',
    bin='mus',
    demo='''
import re, subprocess, sys
B, T = sys.argv[1:]
for n in (1, 2, 10, 1022, 1023, 1024, 1025, 1500):
    o = subprocess.run([B], input=b'a' * n, capture_output=True, check=True).stdout
    m = re.search(rb'mus=\\[(.*)\\]', o).group(1)
    assert m == b'(0, %d)' % n, (n, m[:100])
    w = bytes((i * i * 7 + i // 3) % 97 + 100 for i in range(n))
    o = subprocess.run([B], input=w + b'a' + w + b'b', capture_output=True, check=True).stdout
    m = re.findall(rb'\\((\\d+), (\\d+)\\)', re.search(rb'mus=\\[(.*)\\]', o).group(1))
    t = w + b'a' + w + b'b'
    for x, y in m:
        x, y = int(x), int(y)
        u = t[x:x + y]
        assert t.find(u) == x and t.find(u, x + 1) < 0, (n, x, y)
''')

S['factor_info'] = dict(
    property='P03',
    edits=[('src/bin/lyndonfactorization.rs', """                os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                    .unwrap();""", """                let _ = os.write(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1]);
                if factor_id % 4096 == 4095 {
                    os.flush().unwrap();
                    os.get_ref().set_len(1 << 16).unwrap();
                }""")],
    needs='more than 4095 factors',
    breaks='the file is cut or filled up',
    bin='lyndonfactorization',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
for n in (1, 2, 4095, 4096, 4097, 9000):
    o = subprocess.run([B, '-o', T + '/f'], input=b'a' * n, capture_output=True, check=True).stdout
    assert b'factors=%d' % n in o
    e = b'>Factor 1\\na' + b''.join(b'\\n>Factor %d : %d -> %d\\na' % (i + 1, i, i + 1) for i in range(1, n))
    assert open(T + '/f', 'rb').read() == e, n
''')

FULL = '''
import subprocess, sys, os
B, T = sys.argv[1:]
def full(args, text, want):
    "the tool writes `want`; when it cannot be written, the tool does not end successfully"
    f = T + '/o'
    subprocess.run([B] + args + ['-o', f], input=text, capture_output=True, check=True)
    got = open(f, 'rb').read()
    assert want is None or got == want, (got, want)
    p = subprocess.run([B] + args + ['-o', '/dev/full'], input=text, capture_output=True)
    assert p.returncode != 0, ('file', args, text)
    with open('/dev/full', 'wb') as o:
        p = subprocess.run([B] + args, input=text, stdout=o, stderr=subprocess.PIPE)
    assert p.returncode != 0, ('stdout', args, text)
'''

S['flush_mtf'] = dict(
    property='P31',
    edits=[('src/bin/mtf.rs', '''    writer.flush().unwrap();
}

pub fn mtf_vector''', '''    if writer.flush().is_err() {
        eprintln!("could not flush the output");
    }
}

pub fn mtf_vector''')],
    needs='output to standard output that fails when it is flushed (a full device), without a newline byte in it',
    breaks='the result is lost, and the tool ends successfully',
    bin='mtf',
    demo=FULL + '''
full([], b'banana', None)
full([], b'aa', b'a\\x00')
''')

S['open_sink'] = dict(
    property='P31',
    edits=[('src/io.rs', '''            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>
        }''', '''            match std::fs::File::create(path) {
                Ok(file) => Box::new(file) as Box<dyn std::io::Write>,
                Err(error) => {
                    eprintln!("cannot create {}: {}", filename, error);
                    Box::new(std::io::stdout()) as Box<dyn std::io::Write>
                }
            }
        }''')],
    needs='an output file that cannot be created',
    breaks='the result is not in the file that was asked for, and the tool ends successfully',
    bin='reverse',
    demo=FULL + '''
full([], b'banana', b'ananab')
for f in (T, T + '/none/x'):
    assert subprocess.run([B, '-o', f], input=b'banana', capture_output=True).returncode != 0, f
''')

S['open_empty'] = dict(
    property='P31',
    edits=[('src/io.rs', '''            Box::new(std::io::BufReader::new(std::fs::File::open(path).unwrap()))
                as Box<dyn std::io::Read>''', '''            match std::fs::File::open(path) {
                Ok(file) => Box::new(std::io::BufReader::new(file)) as Box<dyn std::io::Read>,
                Err(_) => Box::new(std::io::empty()) as Box<dyn std::io::Read>,
            }''')],
    needs='an input file that cannot be opened, for a tool that reads characters one by one',
    breaks='it counts as an empty text, and the tool ends successfully',
    bin='rle',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
open(T + '/i', 'wb').write(b'aaab')
assert subprocess.run([B, '-i', T + '/i'], capture_output=True, check=True).stdout == b'a\\x02b\\x00'
p = subprocess.run([B, '-i', T + '/none'], capture_output=True)
assert p.returncode != 0
''')

S['stdin_err'] = dict(
    property='P31',
    edits=[('src/io.rs', '''        let mut buffer = Vec::new();
        reader.read_to_end(&mut buffer).unwrap();
        buffer''', '''        let mut buffer = Vec::new();
        if let Err(error) = reader.read_to_end(&mut buffer) {
            eprintln!("stdin: {}", error);
        }
        buffer''')],
    needs='a standard input that fails while it is read (such as a directory)',
    breaks='what was read before counts as the text, and the tool ends successfully',
    bin='reverse',
    demo='''
import subprocess, sys, os
B, T = sys.argv[1:]
assert subprocess.run([B], input=b'abc', capture_output=True, check=True).stdout == b'cba'
d = os.open(T, os.O_RDONLY)
p = subprocess.run([B], stdin=d, capture_output=True)
assert p.returncode != 0
''')

S['out_buf'] = dict(
    property='P31',
    edits=[('src/io.rs', '''            Box::new(std::fs::File::create(path).unwrap()) as Box<dyn std::io::Write>''', '''            let file = std::fs::File::create(path).unwrap();
            Box::new(std::io::BufWriter::new(file)) as Box<dyn std::io::Write>''')],
    needs='lyndonwords or count_z (which do not flush) with an output file on a full device and less than 8192 bytes of output',
    breaks='the errors of the last writes are dropped with the buffer, and the tool ends successfully',
    bin='lyndonwords',
    demo=FULL + '''
full(['-l', '2', '-s', '2'], b'', None)
full(['-l', '12', '-s', '2'], b'', None)
''')

S['rle_last'] = dict(
    property='P31',
    edits=[('src/bin/rle.rs', '''            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap();
        }
    }''', '''            write!(writer, "({},{})", prev_char as char, run_counter + 1).unwrap_or_default();
        }
    }''')],
    needs='rle --human to a file whose device fails at the last pair',
    breaks='the last pair is missing, and the tool ends successfully',
    bin='rle',
    demo=FULL + '''
full(['--human'], b'aaab', b'(a,3)(b,1)')
full(['--human'], b'aaa', b'(a,3)')
''')

S['lyn_factor'] = dict(
    property='P31',
    edits=[('src/bin/lyndonfactorization.rs', '''                os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                    .unwrap();''', '''                let factor = &text[factors[factor_id - 1] + 1..factors[factor_id] + 1];
                if os.write_all(factor).is_err() {
                    break;
                }''')],
    needs='an output file whose device fails within a factor that is longer than the buffer of the writer',
    breaks='the rest of the factors is missing, and the tool ends successfully',
    bin='lyndonfactorization',
    demo='''
import subprocess, sys, resource, signal
B, T = sys.argv[1:]
t = b'b' * 3 + b'a' + b'b' * 30000 + b'a'
f = T + '/o'
subprocess.run([B, '-o', f], input=t, capture_output=True, check=True)
want = open(f, 'rb').read()
assert len(want) > 30000
def limit():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (1000, 1000))
p = subprocess.run([B, '-o', f], input=t, capture_output=True, preexec_fn=limit)
assert p.returncode != 0
''')

S['z_out'] = dict(
    property='P31',
    edits=[('src/bin/count_z.rs', '''                .write_all(format!("({},{})", fact.pos, fact.len).as_bytes())
                .unwrap();''', '''                .write_all(format!("({},{})", fact.pos, fact.len).as_bytes())
                .unwrap_or_else(|error| log::error!("{}", error));''')],
    needs='an output file of count_z on a full device',
    breaks='the factors are not written, and the tool ends successfully',
    bin='count_z',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
f = T + '/o'
subprocess.run([B, '-o', f], input=b'banana', capture_output=True, check=True)
assert open(f, 'rb').read().startswith(b'(')
assert subprocess.run([B, '-o', '/dev/full'], input=b'banana', capture_output=True).returncode != 0
''')

S['bwt_pipe'] = dict(
    property='P31',
    edits=[('src/bin/bwt.rs', '''    writer.write_all(bwt.as_slice()).unwrap();''', '''    if let Err(error) = writer.write_all(bwt.as_slice()) {
        if error.kind() == std::io::ErrorKind::BrokenPipe {
            return;
        }
        panic!("cannot write the BWT: {}", error);
    }''')],
    needs='standard output is a pipe whose reader has gone',
    breaks='the transform is not delivered, and the tool ends successfully',
    bin='bwt',
    demo='''
import subprocess, sys, os
B, T = sys.argv[1:]
assert subprocess.run([B], input=b'banana', capture_output=True, check=True).stdout == b'annb\\x00aa'
for t in (b'banana', b'banana' * 1000):
    r, w = os.pipe()
    os.close(r)
    p = subprocess.run([B], input=t, stdout=w, stderr=subprocess.PIPE)
    os.close(w)
    assert p.returncode != 0, len(t)
''')

S['enum_writer'] = dict(
    property='P31',
    edits=[('src/bin/enumerate.rs', '''    let mut indices = vec![0usize; len];
    loop {''', '''    let mut indices = vec![0usize; len];
    let mut out = std::io::BufWriter::new(std::io::stdout());
    loop {'''), ('src/bin/enumerate.rs', '''        println!("{}", s);
''', '''        use std::io::Write;
        writeln!(out, "{}", s).unwrap();
''')],
    needs='standard output that fails at the last block of the listing',
    breaks='the end of the listing is missing, and the tool ends successfully',
    bin='enumerate',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
assert subprocess.run([B, '2', '1', '2'], capture_output=True, check=True).stdout == b'a\\nb\\naa\\nab\\nba\\nbb\\n'
for a in (['2', '1', '2'], ['3', '9']):
    with open('/dev/full', 'wb') as o:
        assert subprocess.run([B] + a, stdout=o, stderr=subprocess.PIPE).returncode != 0, a
''')

S['esc_last'] = dict(
    property='P31',
    edits=[('src/bin/escape.rs', '''    writer.flush().unwrap();
}''', '''    if args.prefixlength == 0 {
        writer.flush().unwrap();
    }
}''')],
    needs='escape --prefixlength to a standard output that fails when it is flushed',
    breaks='the result is lost, and the tool ends successfully',
    bin='escape',
    demo='''
import subprocess, sys
B, T = sys.argv[1:]
assert subprocess.run([B, '-p', '3'], input=b'banana', capture_output=True, check=True).stdout == b'ban'
for a in ([], ['-p', '3'], ['-p', '30']):
    with open('/dev/full', 'wb') as o:
        assert subprocess.run([B] + a, input=b'banana', stdout=o, stderr=subprocess.PIPE).returncode != 0, a
''')
