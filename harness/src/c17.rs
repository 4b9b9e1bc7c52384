//! C17: chunking never changes the result of range, byte and token parsers.
use crate::grammars;
use crate::nd::{self, q};
use crate::split::*;
use combine::parser::byte;
use combine::parser::byte::num;
use combine::parser::char as ch;
use combine::parser::choice::{choice, optional};
use combine::parser::combinator::{attempt, look_ahead, not_followed_by, recognize as recog};
use combine::parser::range::*;
use combine::parser::repeat::*;
use combine::parser::token::{any, eof, none_of, one_of, position, satisfy, satisfy_map, token, tokens, tokens_cmp};
use combine::parser::combinator::from_str;
use combine::Parser;

type V = Vec<u8>;
type VR<'a> = Vec<&'a [u8]>;
type VS<'a> = Vec<&'a str>;
fn dig(x: u8) -> bool {
    x >= b'a' && x <= b'y'
}
fn low(x: char) -> bool {
    x >= 'a'
}
const AB: &[u8] = b"ab";
const AAB: &[u8] = b"aab";
const ABA: &[u8] = b"aba";

grammars! { split_b COUNT_B [W [u8], u8]
    range(AB).and(optional(any()));
    range(&b""[..]).and(any());
    attempt(range(ABA)).or(range(AB)).and(any());
    choice((range(AAB), range(AB), take(1)));
    choice([range(AAB), range(AB), range(&b"b"[..])]).and(take(2));
    optional(range(AAB)).and(take_while(dig));
    look_ahead(range(AB)).and(take(3));
    not_followed_by(range(AB).map(|_| "ab")).with(take(2));
    (take(0), take(2), take(1));
    any().then_partial(|n| take((*n & 3) as usize)).and(optional(any()));
    take(2).or(take(1));
    attempt((take(1), take(2)).map(|x| x.1)).or(take(1));
    take_while(|x: u8| x == b'a').and(optional(any()));
    take_while(dig).and(take_while(|x: u8| !dig(x))).skip(eof());
    take_while1(|x: u8| x == b'a').and(any());
    optional(take_while1(dig)).and(take_while1(|x: u8| x < b'a'));
    (take_while1(|x: u8| x == b'a'), range(AB), take_while(dig));
    attempt(take_while1(|x: u8| x == b'a').skip(token(b'b'))).or(take_while1(dig));
    look_ahead(take_while1(dig)).and(take(1)).and(take_while(dig));
    many::<VR, _, _>(take_while1(dig).skip(token(b'Z'))).and(optional(any()));
    sep_by::<VR, _, _, _>(take_while(|x: u8| x == b'a'), token(b'b')).and(optional(any()));
    sep_by1::<VR, _, _, _>(take_while1(|x: u8| x == b'a'), range(AB)).skip(eof());
    sep_end_by::<VR, _, _, _>(take_while1(|x: u8| x == b'a'), token(b'b')).and(optional(any()));
    count_min_max::<VR, _, _>(1, 2, take_while1(dig).skip(any())).and(optional(any()));
    many::<VR, _, _>(range(AB)).and(many::<V, _, _>(any()));
    many::<VR, _, _>(attempt(take(2))).and(optional(any()));
    take_until_range(AB).and(take(3));
    take_until_range(AAB).and(take(2));
    take_until_range(ABA).skip(range(ABA)).and(optional(any()));
    take_until_range(&b"b"[..]).and(any());
    many::<VR, _, _>(take_until_range(AB).skip(range(AB)));
    sep_by::<VR, _, _, _>(attempt(take_until_range(AB)), range(AB)).and(optional(any()));
    optional(attempt(take_until_range(AB))).and(optional(any()));
    byte::take_until_byte(b'b').and(any());
    byte::take_until_byte2(b'b', b'c').and(take(1)).and(optional(any()));
    byte::take_until_byte3(b'b', b'c', b'd').and(any());
    many::<VR, _, _>(byte::take_until_byte(b'b').skip(any()));
    byte::take_until_bytes(AB).and(take(3));
    byte::take_until_bytes(AAB).skip(any()).and(take(2));
    byte::take_until_bytes(ABA).and(any());
    many::<VR, _, _>(byte::take_until_bytes(AB).skip(range(AB)));
    take_fn(|r: &[u8]| r.iter().position(|x| *x == b'a')).and(any());
    take_fn(|r: &[u8]| match r.iter().position(|x| *x == b'a') { Some(i) => TakeRange::Found(i + 1), None => TakeRange::NotFound(r.len()) }).and(optional(any()));
    recognize(skip_many1(token(b'a'))).and(optional(any()));
    recognize((take_while(|x: u8| x == b'a'), optional(range(AB)), optional(token(b'c')))).and(optional(any()));
    recognize((skip_many(token(b'a')), token(b'b'))).or(take(2));
    recognize(attempt((token(b'a'), token(b'b'))).or((token(b'a'), token(b'c')))).and(optional(any()));
    attempt(recognize((token(b'a'), skip_many1(token(b'b')), token(b'c')))).or(recognize(skip_many1(any().skip(any()))));
    recognize_with_value((optional(token(b'a')), take_while1(|x: u8| x == b'b')).map(|x| x.0.is_some())).and(optional(any()));
    recognize((recognize((token(b'a'), optional(token(b'b')))), recognize(take_while1(dig)))).and(optional(any()));
    many::<VR, _, _>(recognize((any(), optional(token(b'b'))))).skip(eof());
    sep_by::<VR, _, _, _>(recognize(skip_many1(satisfy(dig))), token(b'Z')).and(optional(any()));
    look_ahead(recognize((token(b'a'), any()))).and(recognize((any(), any())));
    recognize(take_until_range(AB).skip(range(AB))).and(optional(any()));
    recognize(eof()).or(recognize(any().map(|_| ())));
    recog::<V, _, _>(skip_many1(token(b'a'))).and(optional(any()));
    recog::<V, _, _>((take_while(|x: u8| x == b'a'), optional(token(b'b')))).and(optional(any()));
    attempt(recog::<V, _, _>((token(b'a'), skip_many1(token(b'b')), token(b'c')))).or(recog::<V, _, _>(any()));
    many::<Vec<V>, _, _>(recog::<V, _, _>((any(), optional(token(b'b'))))).skip(eof());
    length_prefix(any().map(|x: u8| x & 3)).and(optional(any()));
    many::<VR, _, _>(length_prefix(num::le_u16().map(|x: u16| x & 1)).skip(token(b'a')));
    byte::bytes(b"aba").and(optional(any()));
    attempt(byte::bytes(b"aba")).or(byte::bytes(b"ab")).and(any());
    byte::bytes(b"").and(any());
    many::<VR, _, _>(byte::bytes(b"ab")).and(optional(any()));
    many::<VR, _, _>(attempt(byte::bytes(b"aab"))).and(optional(any()));
    choice((byte::bytes(b"ab"), byte::bytes(b"ba"), byte::bytes(b"b"))).skip(optional(any()));
    byte::bytes_cmp(b"ab", |l, r| l == r.to_ascii_lowercase()).and(any());
    tokens(|l: &u8, r: u8| *l == r, "aba", ABA).and(optional(any()));
    optional(attempt(tokens_cmp(AAB, |l: &u8, r: u8| *l == r))).and(optional(any()));
    take_until::<V, _, _>(attempt(byte::bytes(b"ab"))).and((any(), any()));
    take_until::<V, _, _>(range(AB)).and(range(AB));
    num::be_u16().and(optional(any()));
    num::le_u32().map(|x| x as u64).or(num::be_u16().map(|x| x as u64)).and(optional(any()));
    attempt(num::be_i32().map(|x| x as i64)).or(num::le_i16().map(|x| x as i64));
    num::be_f32().map(|x| x.to_bits()).and(optional(any()));
    (any(), num::le_u64());
    many::<Vec<u16>, _, _>(num::be_u16()).and(eof());
    byte::crlf().and(optional(any()));
    many::<V, _, _>(byte::crlf()).and(optional(any()));
    optional(attempt(byte::crlf())).and(optional(any()));
    choice((byte::crlf(), byte::newline(), byte::tab())).and(byte::spaces());
    byte::spaces().and(optional(any()));
    (byte::spaces(), byte::digit(), byte::spaces(), byte::letter().or(byte::upper()));
    many1::<V, _, _>(byte::alpha_num()).and(byte::space());
    from_str::<_, u32, _>(take_while1(|x: u8| x >= b'0' && x <= b'1')).and(optional(any()));
    optional(from_str::<_, u32, _>(recognize(skip_many1(byte::oct_digit())))).and(optional(any()));
    one_of(AB.iter().cloned()).and(optional(none_of(AAB.iter().cloned()))).and(optional(any()));
    satisfy_map(|x: u8| if x < 64 { Some(x ^ 1) } else { None }).and(many::<V, _, _>(satisfy(dig)));
    (take_while1(dig), position(), optional(any())).map(|(a, _, b)| (a, b));
}
grammars! { split_t COUNT_T [W str, char]
    range("ab").and(optional(any()));
    range("aé").and(optional(any()));
    range("€").or(range("é")).and(optional(any()));
    optional(attempt(range("aé"))).and(optional(any()));
    take(1).and(optional(any()));
    take(2).or(take(1)).and(optional(any()));
    optional(attempt(take(3))).and(optional(any()));
    take_while(low).and(optional(any()));
    take_while(|x: char| x > '\u{7f}').and(take_while(|x: char| x <= '\u{7f}')).skip(eof());
    take_while1(|x: char| x == 'a').and(any());
    optional(take_while1(low)).and(optional(any()));
    (take_while1(|x: char| x >= '\u{80}'), token('a'), take_while(low));
    sep_by::<VS, _, _, _>(take_while(|x: char| x == 'é'), token('a')).and(optional(any()));
    many::<VS, _, _>(take_while1(low).skip(token('A'))).and(optional(any()));
    take_until_range("ab").and(take(2)).and(optional(any()));
    take_until_range("é").and(any());
    take_until_range("éa").and(take(3));
    many::<VS, _, _>(take_until_range("a").skip(any()));
    byte::take_until_byte(b'a').and(any());
    byte::take_until_byte2(b'a', b'b').and(any()).and(optional(any()));
    byte::take_until_bytes("é".as_bytes()).and(any());
    byte::take_until_bytes("éa".as_bytes()).and(take(3));
    many::<VS, _, _>(byte::take_until_bytes("ab".as_bytes()).skip(range("ab")));
    take_fn(|r: &str| r.find('é')).and(any());
    recognize(skip_many1(satisfy(low))).and(optional(any()));
    recognize((token('é'), optional(token('a')), optional(token('€')))).and(optional(any()));
    recognize(attempt((token('é'), token('b')).map(|_| ())).or((token('é'), token('a')).map(|_| ()))).and(optional(any()));
    many::<VS, _, _>(recognize((any(), optional(token('é'))))).skip(eof());
    recognize_with_value((optional(token('é')), take_while(|x: char| x == 'b'))).and(optional(any()));
    recog::<String, _, _>((optional(token('é')), skip_many(token('b')))).and(optional(any()));
    ch::string("aé").and(optional(any()));
    attempt(ch::string("éa")).or(ch::string("é")).and(optional(any()));
    many::<VS, _, _>(ch::string("éa")).and(optional(any()));
    many::<VS, _, _>(attempt(ch::string("aab"))).and(optional(any()));
    choice((ch::string("ab"), ch::string("éa"), ch::string("b"))).and(optional(any()));
    ch::string_cmp("aé", |l, r| l == r || r == 'A').and(any());
    take_until::<String, _, _>(attempt(ch::string("éa"))).and((any(), any()));
    ch::crlf().and(optional(any()));
    many::<String, _, _>(ch::crlf()).and(optional(any()));
    optional(attempt(ch::crlf())).and(optional(any()));
    choice((ch::crlf(), ch::newline(), ch::tab())).and(optional(any()));
    from_str::<_, u32, _>(take_while1(|x: char| x == '1' || x == '0')).and(optional(any()));
    one_of("aé".chars()).and(optional(none_of("b€".chars()))).and(optional(any()));
}

grammars! { split_c COUNT_C [W str, char]
    ch::spaces().and(optional(any()));
    (ch::spaces(), any(), ch::spaces(), eof()).map(|x| x.1);
    many1::<String, _, _>(ch::letter()).and(optional(any()));
    many1::<String, _, _>(ch::alpha_num()).and(ch::space());
    from_str::<_, u32, _>(many1::<String, _, _>(ch::digit())).and(optional(any()));
    satisfy_map(|x: char| x.to_digit(16)).and(many::<String, _, _>(ch::oct_digit()));
}
/// ASCII, or one of a few others
fn mixed(lo: usize, hi: usize) -> String {
    let n = nd::range(lo, hi);
    let mut v = Vec::with_capacity(3 * n + 1);
    for _ in 0..n {
        match nd::choose(4) {
            0 => nd::push_char(&mut v, 1),
            k => v.extend_from_slice(["é", "\u{2028}", "中"][k - 1].as_bytes()),
        }
    }
    nd::to_text(v)
}

harnesses! {
    /// each byte parser above on any input of up to 4 (thorough: 5) bytes, cut at any two (three) places, two messages with one state, on bare, error-collecting and positioned chunks
    fn h_c17_bytes[2] {
        let k = nd::choose(COUNT_B);
        let d = nd::bytes(0, q(4, 5));
        let cs = cuts(&d[..], q(2, 3));
        match nd::choose(3) {
            0 => split_b::<Part>(k, &d, &cs, 2),
            1 => split_b::<EasyPart>(k, &d, &cs, 2),
            _ => split_b::<PosPart>(k, &d, &cs, 2),
        };
    }
    /// the same byte by byte: any input of exactly 6 (thorough: 8) bytes, three messages
    fn h_c17_bytewise[2] {
        let k = nd::choose(COUNT_B);
        let d = nd::bytes_n(q(6, 8));
        let cs: Vec<usize> = (1..=d.len()).collect();
        split_b::<Part>(k, &d, &cs, 3);
    }
    /// each text parser above on any text of up to 3 (thorough: 4) characters of one or two bytes, cut between characters at any two places
    fn h_c17_text[2] {
        let k = nd::choose(COUNT_T);
        let d = nd::text(0, q(3, 4), 2);
        let cs = cuts(&d[..], 2);
        split_t::<PartStr>(k, &d, &cs, 2);
    }
    /// each on any text of up to 2 (thorough: 3) characters of up to 3 (4) bytes, on error-collecting and positioned chunks
    fn h_c17_wide[2] {
        let k = nd::choose(COUNT_T);
        let d = nd::text(0, q(2, 3), q(3, 4));
        let cs = cuts(&d[..], q(1, 2));
        match nd::choose(2) {
            0 => split_t::<EasyStr>(k, &d, &cs, 2),
            _ => split_t::<PosStr>(k, &d, &cs, 2),
        };
    }
    /// each parser of character classes above on any text of up to 3 (thorough: 4) characters (ASCII, or one of three others)
    fn h_c17_classes[2] {
        let k = nd::choose(COUNT_C);
        let d = mixed(0, q(3, 4));
        let cs = cuts(&d[..], q(2, 3));
        split_c::<PartStr>(k, &d, &cs, 2);
    }
}
