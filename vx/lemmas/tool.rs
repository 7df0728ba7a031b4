// What the command line tool does to the file system.
use crate::image;
pub open spec fn wm_px(p: Pic, d: f64, s: f64, n: int, l: int, i: int) -> Px {
    let q = painted_px(p, d, s, n, l, i);
    Px { a: if is_alpha(p.color) { q.a } else { 255 }, ..q }
}
pub open spec fn wm_pic(p: Pic, d: f64, s: f64, n: int, l: int) -> Pic {
    Pic { color: out_color(p.color), w: p.w, h: p.h, px: Seq::new(p.px.len(), |i: int| wm_px(p, d, s, n, l, i)) }
}
pub proof fn lemma_wm_pic()
    ensures forall|p: Pic, r: Pic, d: f64, s: f64, n: int, l: int| #![trigger painted(p, r, d, s, n, l)]
        painted(p, r, d, s, n, l) && r.w == p.w && r.h == p.h && r.color == out_color(p.color) && r.px.len() == p.px.len() ==> r == wm_pic(p, d, s, n, l)
{
    assert forall|p: Pic, r: Pic, d: f64, s: f64, n: int, l: int| #![trigger painted(p, r, d, s, n, l)]
        painted(p, r, d, s, n, l) && r.w == p.w && r.h == p.h && r.color == out_color(p.color) && r.px.len() == p.px.len() implies r == wm_pic(p, d, s, n, l) by {
        assert forall|i: int| 0 <= i < r.px.len() implies r.px[i] == wm_px(p, d, s, n, l, i) by {}
        assert(r.px =~= wm_pic(p, d, s, n, l).px);
    }
}
// the settings of the tool: depth 100, quantization step 1, 11 features
pub open spec fn tool_ok(p: Pic, l: int) -> bool { sized(p.w, p.h) && pic_ok(p, 100.0f64, 1.0f64, 11, l) }
pub open spec fn tool_pic(p: Pic, l: int) -> Pic { wm_pic(p, 100.0f64, 1.0f64, 11, l) }
// the name of the file written for an input
pub open spec fn out_name(inp: Seq<char>, suf: Seq<char>) -> Seq<char> {
    stem_of(inp)->Some_0 + seq!['-'] + suf + seq!['.'] + ext_of(inp)->Some_0
}
pub open spec fn out_node(inp: Seq<char>, suf: Seq<char>, dir: Option<Seq<char>>) -> int {
    match dir { Some(d) => node(d + seq!['/'] + out_name(inp, suf)), None => node(out_name(inp, suf)) }
}
pub open spec fn pic_source(d: Disk, inp: Seq<char>) -> Pic { pic_decoded(fmt_of(inp), d.files[node(inp)]) }
pub open spec fn pic_product(d: Disk, inp: Seq<char>, l: int) -> Seq<u8> { pic_encoded(fmt_of(inp)->Some_0, tool_pic(pic_source(d, inp), l)) }
// an input the tool can work on
pub open spec fn input_ok(d: Disk, inp: Seq<char>, l: int) -> bool {
    &&& d.files.contains_key(node(inp)) && pic_decodable(fmt_of(inp), d.files[node(inp)]) && tool_ok(pic_source(d, inp), l)
    &&& stem_of(inp) is Some && ext_of(inp) is Some && fmt_of(inp) is Some
    &&& pic_encodable(fmt_of(inp)->Some_0, tool_pic(pic_source(d, inp), l))
}
pub open spec fn folder_ok(d: Disk, dir: Option<Seq<char>>) -> bool {
    dir is Some ==> dir->Some_0.len() > 0 && can_mkdir(d, dir->Some_0) && (d.dirs.contains(dir->Some_0) || !d.files.contains_key(node(dir->Some_0)))
}
pub open spec fn room_ok(d: Disk, inp: Seq<char>, suf: Seq<char>, dir: Option<Seq<char>>) -> bool {
    forall|ds: Set<Seq<char>>| d.dirs.subset_of(ds) && (dir is Some ==> ds.contains(dir->Some_0)) ==> #[trigger] creatable(ds, out_node(inp, suf, dir))
}
// every output has a file of its own, and none of them is an input
pub open spec fn apart(inputs: Seq<Seq<char>>, suf: Seq<char>, dir: Option<Seq<char>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < inputs.len() && 0 <= j < inputs.len() && i != j ==> #[trigger] out_node(inputs[i], suf, dir) != #[trigger] out_node(inputs[j], suf, dir)
    &&& forall|i: int, j: int| 0 <= i < inputs.len() && 0 <= j < inputs.len() ==> #[trigger] out_node(inputs[i], suf, dir) != node(#[trigger] inputs[j])
}
pub open spec fn job_ok(d: Disk, inputs: Seq<Seq<char>>, suf: Option<Seq<char>>, dir: Option<Seq<char>>, l: int) -> bool {
    suf is Some ==> flat_name(suf->Some_0) && folder_ok(d, dir) && apart(inputs, suf->Some_0, dir)
        && forall|i: int| 0 <= i < inputs.len() ==> input_ok(d, #[trigger] inputs[i], l) && room_ok(d, inputs[i], suf->Some_0, dir)
}
pub open spec fn is_output(n: int, inputs: Seq<Seq<char>>, suf: Seq<char>, dir: Option<Seq<char>>, k: int) -> bool {
    exists|i: int| 0 <= i < k && n == out_node(#[trigger] inputs[i], suf, dir)
}
// after the first k inputs
pub open spec fn written(d: Disk, e: Disk, inputs: Seq<Seq<char>>, suf: Seq<char>, dir: Option<Seq<char>>, l: int, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k ==> e.files.contains_key(out_node(#[trigger] inputs[i], suf, dir)) && e.files[out_node(inputs[i], suf, dir)] == pic_product(d, inputs[i], l)
    &&& forall|n: int| !is_output(n, inputs, suf, dir, k) ==> #[trigger] e.files.contains_key(n) == d.files.contains_key(n) && e.files[n] == d.files[n]
}
pub open spec fn job_done(d: Disk, e: Disk, inputs: Seq<Seq<char>>, suf: Option<Seq<char>>, dir: Option<Seq<char>>, l: int) -> bool {
    match suf { Some(s) => written(d, e, inputs, s, dir, l, inputs.len() as int), None => e == d }
}
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
// the options of the tool
pub open spec fn declared() -> Map<(Seq<char>, Seq<char>), OptKind> {
    Map::<(Seq<char>, Seq<char>), OptKind>::empty().insert((seq!['s'], Seq::<char>::empty()), OptKind::Arg).insert((seq!['o'], Seq::<char>::empty()), OptKind::Arg)
        .insert((seq!['h'], seq!['h', 'e', 'l', 'p']), OptKind::Flag)
}
pub open spec fn user_args() -> Seq<Seq<char>> { cmdline().subrange(1, cmdline().len() as int) }
pub open spec fn asks_help() -> bool { flag_of(declared(), user_args(), seq!['h']) || free_of(declared(), user_args()).len() == 0 }
pub open spec fn main_done(d: Disk, e: Disk, l: int) -> bool {
    if asks_help() { e == d } else {
        job_done(d, e, free_of(declared(), user_args()), opt_of(declared(), user_args(), seq!['s']), opt_of(declared(), user_args(), seq!['o']), l)
    }
}
pub broadcast proof fn lemma_texts_sub(v: Seq<String>, a: int, b: int)
    requires 0 <= a <= b <= v.len() ensures #[trigger] texts(v.subrange(a, b)) == texts(v).subrange(a, b)
{
    assert(texts(v.subrange(a, b)) =~= texts(v).subrange(a, b));
}
// the order of the declarations does not matter
pub broadcast proof fn lemma_decl(o: Map<(Seq<char>, Seq<char>), OptKind>, a: Seq<Seq<char>>)
    requires forall|k: (Seq<char>, Seq<char>)| #![trigger o.contains_key(k)] #![trigger declared().contains_key(k)] o.contains_key(k) == declared().contains_key(k) && (o.contains_key(k) ==> o[k] == declared()[k])
    ensures #![trigger parses(o, a)] o == declared()
{
    assert(o =~= declared());
}
// the path the output is written to, however it is put together
pub proof fn lemma_target(inp: Seq<char>, suf: Seq<char>, dir: Option<Seq<char>>)
    requires stem_of(inp) is Some, ext_of(inp) is Some, flat_name(suf)
    ensures
        dir is None ==> node(out_name(inp, suf)) == out_node(inp, suf, dir),
        dir is Some ==> node(canon(dir->Some_0) + seq!['/'] + out_name(inp, suf)) == out_node(inp, suf, dir),
        dir is Some ==> node(dir->Some_0 + seq!['/'] + out_name(inp, suf)) == out_node(inp, suf, dir),
        dir is Some ==> ext_of(canon(dir->Some_0) + seq!['/'] + out_name(inp, suf)) == ext_of(inp),
        dir is Some ==> ext_of(dir->Some_0 + seq!['/'] + out_name(inp, suf)) == ext_of(inp),
        ext_of(out_name(inp, suf)) == ext_of(inp),
        out_name(inp, suf).len() > 0, out_name(inp, suf)[0] != '/',
{
    assert(out_name(inp, suf)[0] == stem_of(inp)->Some_0[0]);
    let a = stem_of(inp)->Some_0 + seq!['-'] + suf;
    let e = ext_of(inp)->Some_0;
    assert(a.last() != '/') by { if suf.len() > 0 { assert(a.last() == suf.last()); assert(suf[suf.len() - 1] != '/'); } else { assert(suf =~= Seq::<char>::empty()); assert(a.last() == '-'); } }
    ax_ext(a, e);
    if dir is Some {
        let d = dir->Some_0 + seq!['/'];
        let c = canon(dir->Some_0) + seq!['/'];
        assert(c + (a + seq!['.'] + e) =~= (c + a) + seq!['.'] + e);
        assert(d + (a + seq!['.'] + e) =~= (d + a) + seq!['.'] + e);
        assert((c + a).last() == a.last()); assert((d + a).last() == a.last());
        ax_ext(c + a, e); ax_ext(d + a, e);
    }
}
pub proof fn lemma_written_next(d: Disk, inputs: Seq<Seq<char>>, suf: Seq<char>, dir: Option<Seq<char>>, l: int, k: int)
    requires 0 <= k < inputs.len(), apart(inputs, suf, dir)
    ensures
        forall|e: Disk| #[trigger] written(d, e, inputs, suf, dir, l, k) ==> e.files.contains_key(node(inputs[k])) == d.files.contains_key(node(inputs[k])) && e.files[node(inputs[k])] == d.files[node(inputs[k])],
        forall|e: Disk, f: Disk| #[trigger] written(d, e, inputs, suf, dir, l, k)
            && (forall|n: int| n != out_node(inputs[k], suf, dir) ==> f.files.contains_key(n) == e.files.contains_key(n) && f.files[n] == e.files[n])
            && f.files.contains_key(out_node(inputs[k], suf, dir)) && f.files[out_node(inputs[k], suf, dir)] == pic_product(d, inputs[k], l)
            ==> #[trigger] written(d, f, inputs, suf, dir, l, k + 1),
{
    assert forall|e: Disk| #[trigger] written(d, e, inputs, suf, dir, l, k) implies e.files.contains_key(node(inputs[k])) == d.files.contains_key(node(inputs[k])) && e.files[node(inputs[k])] == d.files[node(inputs[k])] by {
        let n = node(inputs[k]);
        assert(!is_output(n, inputs, suf, dir, k));
        assert(e.files.contains_key(n) == d.files.contains_key(n));
    }
    assert forall|e: Disk, f: Disk| #[trigger] written(d, e, inputs, suf, dir, l, k)
            && (forall|n: int| n != out_node(inputs[k], suf, dir) ==> f.files.contains_key(n) == e.files.contains_key(n) && f.files[n] == e.files[n])
            && f.files.contains_key(out_node(inputs[k], suf, dir)) && f.files[out_node(inputs[k], suf, dir)] == pic_product(d, inputs[k], l)
            implies #[trigger] written(d, f, inputs, suf, dir, l, k + 1) by {
        let o = out_node(inputs[k], suf, dir);
        assert forall|i: int| 0 <= i < k + 1 implies f.files.contains_key(out_node(#[trigger] inputs[i], suf, dir)) && f.files[out_node(inputs[i], suf, dir)] == pic_product(d, inputs[i], l) by {
            if i < k { assert(out_node(inputs[i], suf, dir) != o); }
        }
        assert forall|n: int| !is_output(n, inputs, suf, dir, k + 1) implies #[trigger] f.files.contains_key(n) == d.files.contains_key(n) && f.files[n] == d.files[n] by {
            assert(n != o) by { if n == o { assert(n == out_node(inputs[k], suf, dir)); assert(is_output(n, inputs, suf, dir, k + 1)); } }
            assert(!is_output(n, inputs, suf, dir, k)) by {
                if is_output(n, inputs, suf, dir, k) { let i = choose|i: int| 0 <= i < k && n == out_node(#[trigger] inputs[i], suf, dir); assert(is_output(n, inputs, suf, dir, k + 1)); }
            }
            assert(e.files.contains_key(n) == d.files.contains_key(n));
        }
    }
}
