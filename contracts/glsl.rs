pub mod glsl {
use vstd::prelude::*;
use crate::model::*;
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String)
    ensures r@ == Seq::<char>::empty();
// struct NAME {, one line per field, };
pub open spec fn line(f: GlslField) -> Seq<char> {
    seq!['\t'] + f.ty@ + seq![' '] + f.name@ + seq![';', '\n']
}
pub open spec fn lines(fs: Seq<GlslField>) -> Seq<char>
    decreases fs.len()
{
    if fs.len() == 0 { Seq::empty() } else { lines(fs.drop_last()) + line(fs.last()) }
}
pub open spec fn definition(name: Seq<char>, fs: Seq<GlslField>) -> Seq<char> {
    seq!['s', 't', 'r', 'u', 'c', 't', ' '] + name + seq![' ', '{', '\n'] + lines(fs) + seq!['}', ';']
}
proof fn lemma_lines(fs: Seq<GlslField>, k: int)
    requires 0 <= k < fs.len()
    ensures lines(fs.take(k + 1)) == lines(fs.take(k)) + line(fs[k])
{
    assert(fs.take(k + 1).drop_last() =~= fs.take(k));
}
//@extract glsl
}
