from seedlib import mk
F="core/src/formatter.rs"
SINK='''use std::fmt::{self, Write};
use pest3::{Span, Position};
/// Refuses exactly one write.
struct Once { left: i32, text: String }
impl Write for Once {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.left -= 1;
        if self.left == 0 { return Err(fmt::Error); }
        self.text.push_str(s);
        Ok(())
    }
}
#[allow(dead_code)]
fn never_swallowed(f: &dyn Fn(&mut Once) -> fmt::Result) {
    for n in 1.. {
        let mut s = Once { left: n, text: String::new() };
        let r = f(&mut s);
        if s.left > 0 { assert!(r.is_ok()); return; }
        assert!(r.is_err(), "write {n} was refused and nobody was told: {:?}", s.text);
    }
}
'''
mk("P15-pair-list-swallowed","C08","a sink that refuses one write while a child after the first is being written and accepts the next",
   "Display of a pair drops the refusal, leaves out the remaining children and reports success",
   [("core/src/token/mod.rs",'''        for item in iter {
            write!(f, ", {item}")?;
        }''','''        // Nothing more can be listed once the writer is full.
        let mut iter = iter;
        while let Some(item) = iter.next() {
            if write!(f, ", {item}").is_err() {
                break;
            }
        }''')],
   {"src/main.rs":SINK+'''
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
enum R { A }
fn main() {
    let _ = (Span::new("", 0, 0), Position::new("", 0));
    let leaf = |n| pest3::token::Pair { rule: R::A, start: n, end: n + 1, children: vec![] };
    let p = pest3::token::Pair { rule: R::A, start: 0, end: 9, children: vec![leaf(0), leaf(3), leaf(5)] };
    never_swallowed(&|s| write!(s, "{p}"));
}
'''})
mk("P16-marker-refusal-lost","C08","a marker callback that fails for the upper marker of a span over several lines",
   "the failure of the callback is dropped and the rendering goes on and reports success",
   [(F,'''        (self.marker_formatter)("v", f)?;
        writeln!(f)?;
''','''        (self.marker_formatter)("v", f)
            .and_then(|()| writeln!(f))
            .or_else(|_| writeln!(f))?;
''')],
   {"src/main.rs":SINK+'''
use pest3::formatter::FormatOption;
fn main() {
    never_swallowed(&|s| write!(s, "{}", Position::new("ab", 1).unwrap()));
    let span = Span::new("abc\\ndef\\n", 1, 6).unwrap();
    let mut s = Once { left: 1000, text: String::new() };
    let r = span.display(&mut s, FormatOption::new(
        |t: &str, f: &mut Once| f.write_str(t),
        |t: &str, f: &mut Once| if t == "v" { Err(fmt::Error) } else { f.write_str(t) },
        |t: &str, f: &mut Once| f.write_str(t),
    ));
    assert!(r.is_err(), "a failed callback went unreported: {:?}", s.text);
}
'''})
mk("P17-abridged-number","C08","a span over seven lines or more",
   "the line before the last of an abridged span carries the number it would have in a span of six lines",
   [(F,'''        if let Some(line) = inner.3 {
            self.display_full_covered_snippet(f, index_digit, end.line, line)?;''','''        if let Some(line) = inner.3 {
            // The line after the abridged part.
            let number = if inner.2 { start.line + 5 } else { end.line };
            self.display_full_covered_snippet(f, index_digit, number, line)?;''')],
   {"src/main.rs":SINK+'''
fn main() {
    never_swallowed(&|s| write!(s, "{}", Position::new("ab", 1).unwrap()));
    let text = "1\\n2\\n3\\n4\\n5\\n6\\n7\\n8\\n";
    let t = Span::new(text, 0, 15).unwrap().to_string();
    assert!(t.contains("\\n7 | 7"), "{t}");
}
'''})
