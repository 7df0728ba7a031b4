// ROOTS: labrador_ldpc
// Assumed contracts on the crate labrador-ldpc (trusted).
pub mod labrador_ldpc {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum LDPCCode { TC128, TC256, TC512, TM2048, TM8192 }
    impl LDPCCode {
        pub open spec fn kk(self) -> int { match self { LDPCCode::TC128 => 64, LDPCCode::TC256 => 128, LDPCCode::TC512 => 256, LDPCCode::TM2048 => 1024, LDPCCode::TM8192 => 4096 } }
        pub open spec fn nn(self) -> int { match self { LDPCCode::TC128 => 128, LDPCCode::TC256 => 256, LDPCCode::TC512 => 512, LDPCCode::TM2048 => 2048, LDPCCode::TM8192 => 8192 } }
        // bytes of data and bytes of a codeword
        pub open spec fn kb(self) -> int { self.kk() / 8 }
        pub open spec fn nb(self) -> int { self.nn() / 8 }
        // the systematic codeword of a data word
        pub uninterp spec fn cw(self, data: Seq<u8>) -> Seq<u8>;
        // what the bit-flipping decoder makes of a received word
        pub uninterp spec fn dec(self, word: Seq<u8>, iterations: int) -> Seq<u8>;
        pub uninterp spec fn work_len(self) -> int;
        pub uninterp spec fn out_len(self) -> int;
        #[verifier::external_body] pub fn k(&self) -> (r: usize) ensures r as int == self.kk() { unimplemented!() }
        #[verifier::external_body] pub fn n(&self) -> (r: usize) ensures r as int == self.nn() { unimplemented!() }
        #[verifier::external_body] pub fn decode_bf_working_len(&self) -> (r: usize) ensures r as int == self.work_len() { unimplemented!() }
        #[verifier::external_body] pub fn output_len(&self) -> (r: usize) ensures r as int == self.out_len(), self.out_len() >= self.kb() { unimplemented!() }
        #[verifier::external_body] pub fn copy_encode(&self, data: &[u8], codeword: &mut Vec<u8>)
            requires data@.len() == self.kb(), old(codeword)@.len() == self.nb(),
            ensures final(codeword)@ == self.cw(data@), self.cw(data@).len() == self.nb() { unimplemented!() }
        #[verifier::external_body] pub fn decode_bf(&self, input: &[u8], output: &mut Vec<u8>, working: &mut Vec<u8>, max_iters: usize) -> (r: (bool, usize))
            requires input@.len() == self.nb(), old(output)@.len() == self.out_len(), old(working)@.len() == self.work_len(), max_iters > 0,
            ensures final(output)@.len() == self.out_len(), self.out_len() >= self.kb(), final(output)@.take(self.kb()) == self.dec(input@, max_iters as int) { unimplemented!() }
    }
    // the received word is one whose damage the code corrects to `data`
    pub open spec fn corrects(code: LDPCCode, word: Seq<u8>, data: Seq<u8>) -> bool { word.len() == code.nb() && code.dec(word, 20) == data }
    // an undamaged codeword is a fixed point of the decoder
    pub axiom fn ax_undamaged(code: LDPCCode, data: Seq<u8>)
        requires data.len() == code.kb(),
        ensures code.cw(data).len() == code.nb(), corrects(code, code.cw(data), data);
}
