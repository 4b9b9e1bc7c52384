//! Stands in for the `regex` engine: a `Regex` here is the list of the matches (with their groups)
//! that the engine reports in a haystack of a known length, chosen by the harness.
use std::cell::Cell;

/// one match: the groups, group 0 being the match itself
#[derive(Clone, Debug)]
pub struct Found(pub Vec<Option<(usize, usize)>>);

macro_rules! engine {
    ($t:ty, $as:ident, $slice:expr) => {
        #[derive(Clone, Debug)]
        pub struct Regex {
            found: Vec<Found>,
            len: usize,
            misused: Cell<bool>,
            pattern: &'static str,
        }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct Match<'h> {
            h: &'h $t,
            start: usize,
            end: usize,
        }
        impl<'h> Match<'h> {
            pub fn start(&self) -> usize {
                self.start
            }
            pub fn end(&self) -> usize {
                self.end
            }
            pub fn is_empty(&self) -> bool {
                self.start == self.end
            }
            pub fn len(&self) -> usize {
                self.end - self.start
            }
            pub fn range(&self) -> std::ops::Range<usize> {
                self.start..self.end
            }
            pub fn $as(&self) -> &'h $t {
                $slice(self.h, self.start, self.end)
            }
        }
        #[derive(Clone, Debug)]
        pub struct Captures<'h> {
            h: &'h $t,
            found: Found,
        }
        impl<'h> Captures<'h> {
            pub fn get(&self, i: usize) -> Option<Match<'h>> {
                let h = self.h;
                self.found.0.get(i).copied().flatten().map(|(start, end)| Match { h, start, end })
            }
            pub fn get_match(&self) -> Match<'h> {
                self.get(0).unwrap()
            }
            pub fn len(&self) -> usize {
                self.found.0.len()
            }
            pub fn iter<'c>(&'c self) -> SubCaptureMatches<'c, 'h> {
                SubCaptureMatches { c: self, i: 0 }
            }
        }
        #[derive(Clone, Debug)]
        pub struct SubCaptureMatches<'c, 'h> {
            c: &'c Captures<'h>,
            i: usize,
        }
        impl<'c, 'h> Iterator for SubCaptureMatches<'c, 'h> {
            type Item = Option<Match<'h>>;
            fn next(&mut self) -> Option<Self::Item> {
                if self.i == self.c.len() {
                    return None;
                }
                self.i += 1;
                Some(self.c.get(self.i - 1))
            }
        }
        #[derive(Clone, Debug)]
        pub struct Matches<'r, 'h>(CaptureMatches<'r, 'h>);
        impl<'r, 'h> Iterator for Matches<'r, 'h> {
            type Item = Match<'h>;
            fn next(&mut self) -> Option<Match<'h>> {
                self.0.next().map(|c| c.get_match())
            }
        }
        #[derive(Clone, Debug)]
        pub struct CaptureMatches<'r, 'h> {
            h: &'h $t,
            found: std::slice::Iter<'r, Found>,
        }
        impl<'r, 'h> Iterator for CaptureMatches<'r, 'h> {
            type Item = Captures<'h>;
            fn next(&mut self) -> Option<Captures<'h>> {
                let found = self.found.next()?.clone();
                Some(Captures { h: self.h, found })
            }
        }
        impl Regex {
            /// Finds `found` in a haystack of `len` bytes; asked about another one it notes that.
            pub fn reporting(pattern: &'static str, len: usize, found: Vec<Found>) -> Regex {
                Regex { pattern, len, found, misused: Cell::new(false) }
            }
            pub fn misused(&self) -> bool {
                self.misused.get()
            }
            fn ask(&self, h: &$t) -> bool {
                if h.len() != self.len {
                    self.misused.set(true);
                }
                !self.found.is_empty()
            }
            pub fn as_str(&self) -> &str {
                self.pattern
            }
            pub fn captures_len(&self) -> usize {
                self.found.first().map_or(1, |f| f.0.len())
            }
            pub fn is_match(&self, h: &$t) -> bool {
                self.ask(h)
            }
            pub fn find_iter<'r, 'h>(&'r self, h: &'h $t) -> Matches<'r, 'h> {
                Matches(self.captures_iter(h))
            }
            pub fn find<'h>(&self, h: &'h $t) -> Option<Match<'h>> {
                self.find_iter(h).next()
            }
            pub fn captures_iter<'r, 'h>(&'r self, h: &'h $t) -> CaptureMatches<'r, 'h> {
                self.ask(h);
                CaptureMatches { h, found: self.found.iter() }
            }
            pub fn captures<'h>(&self, h: &'h $t) -> Option<Captures<'h>> {
                self.captures_iter(h).next()
            }
        }
    };
}
fn text(h: &str, start: usize, end: usize) -> &str {
    // (the engine only reports character boundaries)
    unsafe { std::str::from_utf8_unchecked(&h.as_bytes()[start..end]) }
}
engine!(str, as_str, text);
pub mod bytes {
    use super::*;
    fn data(h: &[u8], start: usize, end: usize) -> &[u8] {
        &h[start..end]
    }
    engine!([u8], as_bytes, data);
}
