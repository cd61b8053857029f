@module entry src/cli.rs
@opaque generate_cmd
@opaque prune_cmd
@opaque filter_cmd
@opaque merge_cmd
@opaque regex_cmd
@opaque mine_cmd
@spec
use crate::shim::*;
use crate::tokenizer::Tokenizer;
use crate::filter::VocabularyFilter;
use crate::prune::ModelVocabularyPruner;
use crate::cmds::*;
use crate::patterns::*;
use crate::sertknz::*;

/// the types xflags generates from the `xflags!` macro, derived by the extractor from the macro's own text: required flags as they are, optional ones as options, repeated ones as lists
pub mod flags {
    use super::*;
//FLAGS
    /// the command line of this process
    pub uninterp spec fn command_line() -> Tokengeex;
    impl Tokengeex {
        /// leaves the process if the command line is not a valid one
        #[verifier::external_body] pub fn from_env_or_exit() -> (r: Tokengeex) ensures r == command_line() { unimplemented!() }
    }
}
pub mod env_logger {
    use super::*;
    #[verifier::external_body] pub struct Builder { x: u8 }
    impl Builder {
        #[verifier::external_body] pub fn from_default_env() -> Builder { unimplemented!() }
        #[verifier::external_body] pub fn init(&mut self) { unimplemented!() }
    }
}
pub open spec fn g_args(f: flags::Generate) -> GenArgs {
    gen_args(f.vocab_size, f.train@, f.processor@, f.special@, f.suggested@, f.added@, f.split, f.allow, or(f.insert_probability, 0.1f64), or(f.max_token_length, 24))
}
pub open spec fn p_args(f: flags::Prune) -> ModelVocabularyPruner { ModelVocabularyPruner { vocab_size: f.vocab_size, shrink_factor: or(f.shrink_factor, 0.8f64), em_subiters: or(f.em_subiters, 1), dropout: or(f.dropout, 0.01f64) } }
pub open spec fn f_args(f: flags::Filter) -> VocabularyFilter { VocabularyFilter { vocab_size: or(f.vocab_size, 0), min_score: f.min_score, force: or(f.force, false) } }
/// what a command line allows the process to write
pub open spec fn may_gen(f: flags::Generate, a: GenArgs) -> bool { forall|t: Tokenizer| #[trigger] gen_writes(a, t) ==> may_save(f.output@, t) }
pub open spec fn may_prune(f: flags::Prune, a: ModelVocabularyPruner) -> bool { forall|t: Tokenizer| #[trigger] prune_writes(f.input@, a, t) ==> may_save(f.output@, t) }
pub open spec fn may_filter(f: flags::Filter, a: VocabularyFilter) -> bool { forall|t: Tokenizer| #[trigger] filter_writes(f.input@, a, t) ==> may_save(f.output@, t) }
pub open spec fn may_merge(f: flags::Merge, n: usize, st: usize, sf: f64, ml: usize) -> bool { forall|t: Tokenizer| #[trigger] merge_writes(f.input@, f.train@, f.allow@, n, st, sf, ml, t) ==> may_save(f.output@, t) }
pub open spec fn did_gen(f: flags::Generate, a: GenArgs) -> bool { exists|t: Tokenizer| #[trigger] gen_writes(a, t) && saved(f.output@, t) }
pub open spec fn did_prune(f: flags::Prune, a: ModelVocabularyPruner) -> bool { exists|t: Tokenizer| #[trigger] prune_writes(f.input@, a, t) && saved(f.output@, t) }
pub open spec fn did_filter(f: flags::Filter, a: VocabularyFilter) -> bool { exists|t: Tokenizer| #[trigger] filter_writes(f.input@, a, t) && saved(f.output@, t) }
pub open spec fn did_merge(f: flags::Merge, n: usize, st: usize, sf: f64, ml: usize) -> bool { exists|t: Tokenizer| #[trigger] merge_writes(f.input@, f.train@, f.allow@, n, st, sf, ml, t) && saved(f.output@, t) }
pub open spec fn allowed(c: flags::TokengeexCmd) -> bool {
    match c {
        flags::TokengeexCmd::Generate(f) => may_gen(f, g_args(f)),
        flags::TokengeexCmd::Prune(f) => may_prune(f, p_args(f)),
        flags::TokengeexCmd::Filter(f) => (f.min_score matches Some(m) ==> !is_nan(m)) && may_filter(f, f_args(f)),
        flags::TokengeexCmd::Merge(f) => may_merge(f, or(f.num_merges, 1000), or(f.step, 50), or(f.scale_factor, 0.9f64), or(f.max_token_length, 24)),
        flags::TokengeexCmd::Regex(f) => f.output matches Some(o) ==> forall|x: Regex| #[trigger] regex_writes(f.pattern@, x) ==> may_write(o@, sb(x.src())),
        flags::TokengeexCmd::Mine(f) => forall|s: Seq<char>| #[trigger] mine_writes(f.num_idioms, f.train@, f.pattern@, s) ==> may_write(f.output@, sb(s)),
        _ => true,
    }
}
/// what has been written when the process ends well
pub open spec fn done(c: flags::TokengeexCmd) -> bool {
    match c {
        flags::TokengeexCmd::Generate(f) => did_gen(f, g_args(f)),
        flags::TokengeexCmd::Prune(f) => did_prune(f, p_args(f)),
        flags::TokengeexCmd::Filter(f) => did_filter(f, f_args(f)),
        flags::TokengeexCmd::Merge(f) => did_merge(f, or(f.num_merges, 1000), or(f.step, 50), or(f.scale_factor, 0.9f64), or(f.max_token_length, 24)),
        flags::TokengeexCmd::Regex(f) => f.output matches Some(o) ==> exists|x: Regex| #[trigger] regex_writes(f.pattern@, x) && wrote(o@, sb(x.src())),
        flags::TokengeexCmd::Mine(f) => exists|s: Seq<char>| #[trigger] mine_writes(f.num_idioms, f.train@, f.pattern@, s) && wrote(f.output@, sb(s)),
        _ => true,
    }
}
@fn main
@opt may_panic eager
@contract
    requires allowed(flags::command_line().subcommand),
    ensures done(flags::command_line().subcommand)
@start
    hide(or); hide(gen_writes); hide(prune_writes); hide(filter_writes); hide(merge_writes); hide(regex_writes); hide(mine_writes); hide(may_save); hide(saved);
