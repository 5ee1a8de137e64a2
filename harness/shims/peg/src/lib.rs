//! Stand-in for rust-peg (not available offline): the runtime of the subset of its grammar language in use.
pub use peg_macros::parser;

pub enum RuleResult<T> {
    Matched(usize, T),
    Failed,
}

pub trait ParseLiteral {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()>;
}

impl ParseLiteral for str {
    fn parse_string_literal(&self, pos: usize, literal: &str) -> RuleResult<()> {
        let l = literal.len();
        if self.len() >= pos + l && &self.as_bytes()[pos..pos + l] == literal.as_bytes() {
            RuleResult::Matched(pos + l, ())
        } else {
            RuleResult::Failed
        }
    }
}

pub fn next_char(s: &str, pos: usize) -> Option<(usize, char)> {
    let c = s[pos..].chars().next()?;
    Some((pos + c.len_utf8(), c))
}

pub mod error {
    use std::fmt;

    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct ExpectedSet {
        expected: Vec<&'static str>,
    }

    impl ExpectedSet {
        pub fn tokens(&self) -> impl Iterator<Item = &'static str> + '_ {
            let mut v = self.expected.clone();
            v.sort_unstable();
            v.into_iter()
        }
    }

    impl fmt::Display for ExpectedSet {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.expected.is_empty() {
                return f.write_str("<unreported>");
            }
            if self.expected.len() == 1 {
                return f.write_str(self.expected[0]);
            }
            f.write_str("one of ")?;
            for (i, e) in self.tokens().enumerate() {
                if i > 0 {
                    f.write_str(", ")?;
                }
                f.write_str(e)?;
            }
            Ok(())
        }
    }

    #[derive(PartialEq, Eq, Debug, Clone)]
    pub struct ParseError<L> {
        pub location: L,
        pub expected: ExpectedSet,
    }

    impl<L: fmt::Display> fmt::Display for ParseError<L> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "error at {}: expected {}", self.location, self.expected)
        }
    }

    impl<L: fmt::Display + fmt::Debug> std::error::Error for ParseError<L> {}

    pub struct ErrorState {
        pub max_err_pos: usize,
        pub suppress_fail: usize,
        pub reparsing_on_error: bool,
        pub expected: Vec<&'static str>,
    }

    impl ErrorState {
        pub fn new(pos: usize) -> Self {
            ErrorState { max_err_pos: pos, suppress_fail: 0, reparsing_on_error: false, expected: vec![] }
        }

        pub fn reparse(&mut self) {
            self.suppress_fail = 0;
            self.reparsing_on_error = true;
        }

        pub fn mark(&mut self, pos: usize, what: &'static str) {
            if self.suppress_fail == 0 {
                if self.reparsing_on_error {
                    if pos == self.max_err_pos && !self.expected.contains(&what) {
                        self.expected.push(what);
                    }
                } else if pos > self.max_err_pos {
                    self.max_err_pos = pos;
                }
            }
        }

        pub fn into_error(self, input: &str) -> ParseError<crate::str::LineCol> {
            ParseError { location: crate::str::LineCol::of(input, self.max_err_pos), expected: ExpectedSet { expected: self.expected } }
        }
    }
}

pub mod str {
    use std::fmt;

    #[derive(PartialEq, Eq, Debug, Clone, Copy)]
    pub struct LineCol {
        pub line: usize,
        pub column: usize,
        pub offset: usize,
    }

    impl LineCol {
        pub fn of(s: &str, pos: usize) -> LineCol {
            let before = &s[..pos];
            let line = before.bytes().filter(|&c| c == b'\n').count() + 1;
            let column = before.chars().rev().take_while(|&c| c != '\n').count() + 1;
            LineCol { line, column, offset: pos }
        }
    }

    impl fmt::Display for LineCol {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}:{}", self.line, self.column)
        }
    }
}
