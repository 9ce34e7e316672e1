//! Running programs through the public interface of the library.

use crate::model::{self, V};
use lib::{eval_block, Context, Parser, Source};

pub enum Ran {
    /// refused by the parser
    Refused(String),
    /// parsed, and evaluated to a value or an error message
    Evaluated(Result<V, String>),
}

pub fn run_in(context: &mut Context, text: &str) -> Ran {
    match Parser::new(text).parse() {
        Err(e) => Ran::Refused(e),
        Ok(Source { exprs, requests, .. }) => {
            context.extend(requests);
            Ran::Evaluated(eval_block(&exprs, context).map(|v| model::of(&v)))
        }
    }
}

pub fn run(text: &str) -> Ran {
    run_in(&mut Context::new(), text)
}

/// The value, or an error of either kind.
pub fn value(text: &str) -> Result<V, String> {
    match run(text) {
        Ran::Refused(e) => Err(format!("refused: {}", e)),
        Ran::Evaluated(r) => r,
    }
}

pub fn get(context: &Context, name: &str) -> Option<V> {
    context.get(name).map(|v| model::of(v))
}
