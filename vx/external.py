"""Source of a dependency, made readable for the extractor: one concrete type for a type parameter, macros of raw
memory for calls with contracts. Every replacement must apply, else the unit is undecided."""
import glob, os, re
from .extract import Unsupported, VERIF

REPO = os.environ.get('VX_REPO', '/repo')


def crate_dir(name):
    lock = open(os.path.join(REPO, 'Cargo.lock')).read()
    vs = re.findall(r'name = "%s"\nversion = "([^"]+)"' % re.escape(name), lock)
    if len(vs) != 1:
        raise Unsupported('dependency %s: %d versions' % (name, len(vs)))
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    d = glob.glob(os.path.join(home, 'registry/src/*', '%s-%s' % (name, vs[0])))
    if not d:
        raise Unsupported('source of %s %s not found' % (name, vs[0]))
    return d[0]


def edit(t, edits):
    for a, b in edits:
        t, n = re.subn(a, b, t)
        if not n:
            raise Unsupported('dependency text: %r' % a)
    return t


F64 = [(r'where T: Float( \+ FloatConst)?', '')]
DWT = {
    # slices of the whole vector; T = f64; the work space holds anything; `copy!` and `zero!` are calls
    'dwt/src/transform.rs': [
        (r'(?s)/// The transform\.\npub trait Transform<T> \{.*?\n\}\n', ''),
        (r'(?s)impl<T> Transform<T> for \[T\] where T: Float \{\n    fn transform\(&mut self, (.*?)\n    \}\n\}\n', r'pub fn transform(data: &mut [T], \1\n}\n'),
        (r'\bself\b', 'data'),
        (r'let mut work = Vec::with_capacity\(n\);\s*unsafe \{ work\.set_len\(n\) \};', 'let mut work: Vec<f64> = vx_unset(n);'),
        (r'(?s)macro_rules! copy\(.*?\n\);\n', ''), (r'(?s)macro_rules! zero\(.*?\n\);\n', ''),
        (r'zero!\(work\)', 'vx_zero(work)'), (r'copy!\(work, data, n\)', 'vx_copy(work, data, n)'),
        (r'fn (forward|inverse)_step<T>', r'fn \1_step'), (r'where T: Float', ''), (r'T::zero\(\)', '0.0'), (r'&mut \[T\]', '&mut Vec<f64>'), (r'&Wavelet<T>', '&Wavelet'),
    ],
    'dwt/src/wavelet.rs': [(r'pub struct Wavelet<T>', 'pub struct Wavelet'), (r'Vec<T>', 'Vec<f64>'), (r'fn new<T>\(\) -> Wavelet<T> where T: Float \+ FloatConst', 'fn new() -> Wavelet'), (r'T::FRAC_1_SQRT_2\(\)', 'VX_S')],
    'dwt/src/lib.rs': [(r'Transform::transform\(', 'crate::transform::transform('), (r'fn transform<T>', 'fn transform'), (r'&mut \[T\]', '&mut Vec<f64>'), (r'&Wavelet<T>', '&Wavelet'), (r'where T: Float', ''),
                       (r'extern crate num_traits as num;', ''), (r'pub use transform::Transform;', '')],
}

# bytes are Vec<u8>; the iterator over the checks is a call with a contract; loops over parts of a slice are index loops
LDPC = {
    'labrador-ldpc/src/codes/mod.rs': [(r'pub const fn', 'pub fn'), (r'(?s)/// Iterator over a code.s parity check matrix\..*?\nimpl LDPCCode \{', 'impl LDPCCode {')],
    'labrador-ldpc/src/decoder.rs': [
        (r'(?s)/// Trait for types that the min-sum decoder.*?\nimpl LDPCCode \{', 'impl LDPCCode {'), (r'(?s)    /// Message passing based min-sum decoder\..*\Z', '}\n'),
        (r'pub const fn', 'pub fn'), (r'(codeword|output|working): &mut \[u8\]', r'\1: &mut Vec<u8>'),
        (r'assert_eq!\(([^,]*), ([^,]*?)(, "[^"]*")?\);', r'assert!(\1 == \2);'),
        (r'self\.iter_paritychecks\(\)', 'vx_edges(self)'),
        (r'for w in &mut working\[\.\.n\] \{ \*w = 0x00 \}', 'for i in 0..n { working[i] = 0x00; }'), (r'for w in &mut working\[n\.\.\] \{ \*w = 0x10 \}', 'for i in n..working.len() { working[i] = 0x10; }'),
        (r'for c in &mut codeword\[n/8\.\.\] \{ \*c = 0x00 \}', 'for i in n/8..codeword.len() { codeword[i] = 0x00; }'),
        (r'for w in &mut working\[\.\.\] \{ \*w = \(\*w & 0x10\) \| 0x08 \}', 'for i in 0..working.len() { working[i] = (working[i] & 0x10) | 0x08; }'),
        (r'for \(var, working\) in working\[0\.\.\(n\+p\)\]\.iter_mut\(\)\.enumerate\(\)', 'for var in 0..(n+p)'), (r'\*working\b', 'working[var]'),
        (r'output\[\.\.self\.n\(\)/8\]\.copy_from_slice\(input\);', 'for i in 0..self.n()/8 { output[i] = input[i]; }'),
        (r'for v in &mut working\[\.\.\] \{ \*v = 0 \}', 'for i in 0..working.len() { working[i] = 0; }'),
        (r'for \(var, violations\) in working\.iter\(\)\.enumerate\(\)', 'for var in 0..working.len()'), (r'\*violations\b', 'working[var]'),
    ],
    # of the types of words, bytes; parts of the codeword are copied out and back
    'labrador-ldpc/src/encoder.rs': [
        (r'(?s)\A.*?(?=impl EncodeInto for u8 \{)', ''), (r'(?s)\nimpl EncodeInto for u32 \{.*?(?=\nimpl LDPCCode \{)', ''), (r'(?s)#\[cfg\(test\)\].*\Z', ''),
        (r'impl EncodeInto for u8 \{', 'pub struct Bytes;\nimpl Bytes {'), (r'for x in parity\.iter_mut\(\) \{ \*x = 0; \}', 'for i in 0..parity.len() { parity[i] = 0; }'),
        (r'fn encode_parity\(code: &LDPCCode, data: &\[Self\], parity: &mut \[Self\]\)', 'fn encode_parity(code: &LDPCCode, data: &[u8], parity: &mut Vec<u8>)'),
        (r"(?:pub )?fn encode<'a>\(code: &LDPCCode, codeword: &'a mut\[Self\]\) -> &'a mut \[u8\]", 'fn encode(code: &LDPCCode, codeword: &mut Vec<u8>)'),
        (r"fn copy_encode<'a>\(code: &LDPCCode, data: &\[u8\], codeword: &'a mut\[Self\]\) -> &'a mut \[u8\]", 'fn copy_encode(code: &LDPCCode, data: &[u8], codeword: &mut Vec<u8>)'),
        (r"(?s)\n    #\[inline\]\n    pub fn encode<'a, T>.*?\n    \}\n", ''),
        (r"pub fn copy_encode<'a, T>\(&self, data: &\[u8\], codeword: &'a mut \[T\]\) -> &'a mut \[u8\]\s*where T: EncodeInto", 'pub fn copy_encode(&self, data: &[u8], codeword: &mut Vec<u8>)'),
        (r'assert_eq!\(([^,]*), ([^,]*?)(, "[^"]*")?\);', r'assert!(\1 == \2);'), (r'T::bitlength\(\)', 'Bytes::bitlength()'), (r'EncodeInto::copy_encode\(self, data, codeword\)', 'Bytes::copy_encode(self, data, codeword)'),
        (r'code\.compact_generator\(\)', 'vx_generator(*code)'),
        (r'for \(idx, circ\) in gc\[crow\*row_len\.\.\(crow\+1\)\*row_len\]\.iter\(\)\.enumerate\(\)', 'for idx in 0..row_len'), (r'\*circ\b', 'gc[crow*row_len + idx]'),
        (r'let parityblock = &mut parity\[block\*b/8 \.\. \(block\+1\)\*b/8\];', 'let lo = block*b/8; let hi = (block+1)*b/8;'), (r'parityblock\[0\]', 'parity[lo]'),
        (r'for x in parityblock\.iter_mut\(\)\.rev\(\)', 'for x in (lo..hi).rev()'), (r'\*x\b', 'parity[x]'),
        (r'let \(data, parity\) = codeword\.split_at_mut\(k / 8\);', 'let data = vx_part(codeword, 0, k / 8); let mut parity = vx_part(codeword, k / 8, codeword.len());'),
        (r'Self::encode_parity\(code, data, parity\);', 'Self::encode_parity(code, &data, &mut parity); vx_put(codeword, k / 8, &parity);'),
        (r'(?s)// Return a &mut \[u8\] view on the codeword\s*codeword\n', '\n'), (r'codeword\[\.\.data\.len\(\)\]\.copy_from_slice\(data\);', 'for i in 0..data.len() { codeword[i] = data[i]; }'),
        (r'Self::encode\(code, codeword\)', 'Self::encode(code, codeword);'),
    ],
}


def prepare(rel):
    """Path of the prepared copy of a file of a dependency."""
    t = open(os.path.join(crate_dir(rel.split('/')[0]), rel.split('/', 1)[1])).read()
    t = edit(t, (DWT.get(rel) or LDPC[rel]))
    p = os.path.join(VERIF, '.build', 'external', rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = '%s.%d' % (p, os.getpid())
    open(tmp, 'w').write(t)
    os.replace(tmp, p)
    return p
