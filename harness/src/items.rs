//! Error items: what is put into an error, and whether it is what comes out.
use crate::nd;
use combine::stream::easy::{Error, Errors, Info};

pub type E = Error<u8, &'static [u8]>;
pub type Es<P> = Errors<u8, &'static [u8], P>;

/// What an item says. Texts are equal whether owned or static.
#[derive(Clone, Copy)]
pub enum What {
    Token(u8),
    Range(u8),
    Static(usize),
    Owned(usize),
}
#[derive(Clone, Copy)]
pub struct Item {
    /// unexpected, expected, message
    pub kind: usize,
    pub what: What,
}
pub const TEXT: [&str; 2] = ["x", "end of input"];
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        use What::*;
        self.kind == o.kind
            && match (self.what, o.what) {
                (Token(a), Token(b)) | (Range(a), Range(b)) => a == b,
                (Static(a) | Owned(a), Static(b) | Owned(b)) => a == b,
                _ => false,
            }
    }
}
pub fn leak(b: u8) -> &'static [u8] {
    Box::leak(vec![b].into_boxed_slice())
}
impl Item {
    pub fn any() -> Item {
        Item { kind: nd::choose(3), what: Item::what() }
    }
    pub fn what() -> What {
        match nd::choose(6) {
            0 => What::Token(nd::u8()),
            1 => What::Range(nd::u8()),
            k => {
                let t = (k - 2) / 2;
                if k % 2 == 0 {
                    What::Static(t)
                } else {
                    What::Owned(t)
                }
            }
        }
    }
    /// a token, or a text
    pub fn few() -> Item {
        Item { kind: nd::choose(3), what: if nd::flag() { What::Token(nd::u8()) } else { What::Owned(0) } }
    }
    pub fn make(&self) -> E {
        let i = match self.what {
            What::Token(t) => Info::Token(t),
            What::Range(t) => Info::Range(leak(t)),
            What::Static(k) => Info::Static(TEXT[k]),
            What::Owned(k) => Info::Owned(TEXT[k].to_string()),
        };
        match self.kind {
            0 => Error::Unexpected(i),
            1 => Error::Expected(i),
            _ => Error::Message(i),
        }
    }
    /// whether `e` is this item, to the letter
    pub fn same(&self, e: &E) -> bool {
        let (k, i) = match e {
            Error::Unexpected(i) => (0, i),
            Error::Expected(i) => (1, i),
            Error::Message(i) => (2, i),
            Error::Other(_) => return false,
        };
        k == self.kind
            && match (self.what, i) {
                (What::Token(a), Info::Token(b)) => a == *b,
                (What::Range(a), Info::Range(b)) => b.len() == 1 && b[0] == a,
                (What::Static(a), Info::Static(b)) => TEXT[a] == *b,
                (What::Owned(a), Info::Owned(b)) => TEXT[a] == b,
                _ => false,
            }
    }
    /// the same up to how the text is stored
    pub fn like(&self, e: &E) -> bool {
        self.same(e)
            || match self.what {
                What::Static(k) => Item { what: What::Owned(k), ..*self }.same(e),
                What::Owned(k) => Item { what: What::Static(k), ..*self }.same(e),
                _ => false,
            }
    }
}
pub fn is_eoi(i: &Item) -> bool {
    i.kind == 0 && matches!(i.what, What::Static(1) | What::Owned(1))
}
