// C21: one file per input, holding the watermarked picture; nothing else changes.
pub fn thm_run(w: &mut World, inputs: &Vec<String>, suffix: String, folder: String, k: usize)
    requires job_ok(old(w)@, texts(inputs@), Some(suffix@), Some(folder@), watermarking::DWT_LEVELS as int), k < inputs@.len()
    ensures ({
        let i = inputs@[k as int]@;
        let out = folder@ + seq!['/'] + (stem_of(i)->Some_0 + seq!['-'] + suffix@ + seq!['.'] + ext_of(i)->Some_0);
        &&& final(w)@.files[node(out)] == pic_encoded(fmt_ext(ext_of(i)->Some_0)->Some_0, tool_pic(pic_decoded(fmt_of(i), old(w)@.files[node(i)]), watermarking::DWT_LEVELS as int))
        &&& final(w)@.files[node(i)] == old(w)@.files[node(i)]
    })
{
    let ghost d = w@; let ghost suf = suffix@; let ghost dir = folder@;
    cli::process(w, inputs, Some(suffix), Some(folder));
    proof {
        let s = texts(inputs@);
        assert(s[k as int] == inputs@[k as int]@);
        assert(input_ok(d, s[k as int], watermarking::DWT_LEVELS as int));
        assert(!is_output(node(s[k as int]), s, suf, Some(dir), s.len() as int));
        assert(w@.files.contains_key(node(s[k as int])) == d.files.contains_key(node(s[k as int])));
        assert(w@.files.contains_key(out_node(s[k as int], suf, Some(dir))));
    }
    ()
}
// without a suffix nothing is written
pub fn thm_no_suffix(w: &mut World, inputs: &Vec<String>, folder: Option<String>)
    ensures final(w)@ == old(w)@
{
    cli::process(w, inputs, None, folder);
    ()
}
