#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. `python3 tools/props.py` (claims = harness modules that exist)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, st, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))
S = "src/stream/"; R = "src/parser/"
ALLP = [R + x for x in ("mod.rs", "sequence.rs", "choice.rs", "repeat.rs", "combinator.rs", "range.rs", "token.rs", "byte.rs", "char.rs")]

p("C01", "Zero-copy stream operations return exactly the maximal matching prefix",
  "On every built-in stream over &[u8] or &str (bare, complete/partial, and wrapped in easy, position, state or span), taking one token, n bytes, or the longest run accepted by a predicate returns exactly those bytes of the input, unchanged and in order, and leaves exactly the rest. The predicate is called once per token, in order, and never after the first rejection; a request that cannot be met (too few bytes, inside a character) is an error and never a shorter, longer or corrupted range. On a partial stream a run that reaches the end of the available input reports end of input instead of a result.",
  ["inputs", "configurations"], "every input up to the stated length, every position of the first rejected token, every built-in stream type and wrapper, every sequence of operations up to the stated length",
  "the scanners are unrolled eight tokens at a time, so what matters is the length and the place of the first rejection relative to the unrolling; tests use a handful of short strings",
  [S + "mod.rs"], [("unrolled scanning over slices and strings", S + "mod.rs slice_uncons_while*, str_uncons_while*"), ("free functions uncons_while / uncons_while1 / uncons_range", S + "mod.rs"), ("default uncons_while1", S + "mod.rs RangeStreamOnce")],
  ["value returned by RangeStreamOnce::uncons_range / uncons_while / uncons_while1 / StreamOnce::uncons", "RangeStreamOnce::range afterwards"])

p("C02", "A checkpoint restores a stream exactly and distances are exact",
  "After any operations on any built-in stream, resetting to an earlier checkpoint makes the stream indistinguishable from what it was then: the same remaining input, the same position and the same results for all later operations. The distance between a checkpoint and the current place is exactly the length of the input taken in between, whether that input was taken by tokens or by ranges.",
  ["inputs", "histories", "configurations"], "every input and every sequence of operations, checkpoints and resets up to the stated bounds, on every built-in stream and wrapper",
  "backtracking combinators all rely on it, for every history of operations; tests reset after one or two tokens",
  [S + "mod.rs", S + "position.rs", S + "easy.rs", S + "state.rs", S + "span.rs"], [("checkpoint and reset of each stream", S + "*.rs ResetStream impls"), ("distance", S + "mod.rs RangeStreamOnce::distance")],
  ["RangeStreamOnce::range, Positioned::position and later results after ResetStream::reset", "RangeStreamOnce::distance"])

p("C03", "Buffered streams replay the source exactly within their lookahead",
  "A buffered stream over a forward-only source (an iterator, a reader) delivers exactly the source's tokens in order, and reads each token from the source once. Resetting to a checkpoint no further back than the lookahead replays the same tokens and the same end of input or error; resetting further back is reported as an error, at the reset or at the next read, and never yields wrong, skipped or duplicated tokens.",
  ["inputs", "histories"], "every source length, lookahead and sequence of reads, checkpoints and resets within the stated bounds, for iterator- and reader-backed sources",
  "the tests check two or three fixed histories; the guarantee is about every history relative to every window size, wrap-around included",
  [S + "buffered.rs", S + "mod.rs", S + "read.rs", S + "position.rs"], [("ring of remembered tokens", S + "buffered.rs uncons / reset"), ("iterator and reader sources", S + "mod.rs IteratorStream, " + S + "read.rs")],
  ["StreamOnce::uncons and ResetStream::reset results", "the number of items pulled from the source"])

p("C04", "Tracked positions are the fold of the consumed input",
  "Wherever a positioned stream stands, its position is a function of the consumed input alone: line and column as obtained by counting newlines and characters one by one, or the number of consumed tokens. It is the same whether the input was taken by tokens or by ranges, and whatever was tried and reset in between. Pointer-based positions of slices and strings translate to exactly the number of bytes consumed.",
  ["inputs", "histories"], "every text (any mix of newlines, tabs, carriage returns and multi-byte characters) and every way of consuming it within the stated bounds",
  "tests use a few texts whose ranges hold no newlines; the equality of range-wise and token-wise updates is over all inputs",
  [S + "position.rs", S + "mod.rs"], [("positioner updates", S + "position.rs SourcePosition, IndexPositioner"), ("range updates", S + "position.rs RangePositioner"), ("PointerOffset", S + "mod.rs PointerOffset::translate_position")],
  ["Positioned::position", "parser::token::position", "error positions"])

p("C05", "The commit bookkeeping of results composes consistently",
  "Results of parsers and functions compose by one rule: the composite is committed exactly when some part that ran committed, values and errors pass through unchanged, and conversions between the result representations lose neither the value, the error nor the committed state.",
  ["inputs"], "every combination of committed/peeked and ok/error of the parts, with arbitrary payloads",
  "tests exercise the combinators on a few inputs; the algebra has to agree in every combination because every parser is built from it",
  ["src/error.rs", R + "mod.rs"], [("Commit and ParseResult operations", "src/error.rs")],
  ["return values of Commit and ParseResult methods and conversions"])

p("C06", "Choice commits to the first alternative that consumes or succeeds",
  "A choice (or, tuples, slices, arrays, the macro) tries its alternatives left to right from the same place and returns the result of the first that does not fail without committing; once an alternative commits no later one is tried. If all fail without committing the choice fails without committing and its error mentions what every alternative expected. This holds for any number of alternatives and for repeated use of the same parser.",
  ["inputs", "programs"], "every combination of outcomes of up to the stated number of alternatives, every input within the bounds, all forms of choice",
  "tests have two or three alternatives and few outcome combinations; the tuple and slice implementations are separate code with macro-generated state per arity",
  [R + "choice.rs"], [("tuple, slice and array choice", R + "choice.rs"), ("or, optional", R + "choice.rs")],
  ["result, committed state, remaining input, set of expected items in the error"])

p("C07", "Sequencing runs parts in order and commits exactly when a part committed",
  "A sequence (tuples of any arity, with, skip, between, then, then_partial, then_ref, struct fields) succeeds exactly when every part succeeds starting where the previous one stopped, yields the parts' values in order, and stops at the first failure without running later parts. It is committed exactly when one of the parts that ran committed, so a failure after input was taken is a committed failure whichever part failed.",
  ["inputs", "programs"], "every combination of outcomes of the parts up to the stated arity, every input within the bounds, all sequencing forms",
  "the tuple parsers are macro-generated per arity with error-merging code that only runs for particular combinations of outcomes",
  [R + "sequence.rs"], [("tuple sequences", R + "sequence.rs tuple_parser!"), ("with/skip/between/then*", R + "sequence.rs")],
  ["result, committed state, remaining input, value order"])

p("C08", "attempt, look_ahead, not_followed_by and optional consume as documented",
  "attempt turns exactly the committed failures of its parser into uncommitted ones and changes nothing else; look_ahead and not_followed_by leave the input where it was; not_followed_by succeeds exactly when its parser fails; optional yields a value, nothing when its parser fails without committing, and otherwise passes the committed failure on. Afterwards the next parser sees precisely the input these rules imply.",
  ["inputs", "programs"], "every outcome of the inner parser, every input within the bounds, alone and nested",
  "the four outcomes and their interplay with what follows are only partly sampled by the tests",
  [R + "combinator.rs", R + "choice.rs"], [("attempt, look_ahead, not_followed_by", R + "combinator.rs"), ("optional", R + "choice.rs")],
  ["result, committed state, remaining input"])

p("C09", "Repetition yields exactly the maximal sequence of items within its limits",
  "many, many1, skip_many, skip_many1, count, skip_count, count_min_max, skip_count_min_max, sep_by, sep_by1, sep_end_by, sep_end_by1, skip_many-like and iter-style repetition collect exactly the items that the repeated parser yields one after another, stopping at the first uncommitted failure or at the upper limit, with the stream placed after the last item that counts. Fewer items than the lower limit, or a committed failure of an item or separator, is a failure, and a separator consumed without a following item is a failure except in the sep_end forms.",
  ["inputs", "programs"], "every sequence of item and separator outcomes within the bounds, every limit, every input",
  "counts, limits and separator/item outcomes combine freely; tests sample a few short inputs",
  [R + "repeat.rs", R + "mod.rs"], [("many family", R + "repeat.rs"), ("iter", R + "mod.rs Parser::iter, Iter")],
  ["collected values, result, committed state, remaining input"])

p("C10", "Operator chains associate as documented and consume nothing they do not use",
  "chainl1 folds operands to the left and chainr1 to the right over the longest chain of operand (operator operand)*, each operand and operator used exactly once and in order. An operator that took input without a following operand is a failure; one that took nothing leaves the chain as it was before.",
  ["inputs", "programs"], "every sequence of operand and operator outcomes within the bounds",
  "tests fold a couple of arithmetic expressions; the dangling-operator and zero-width cases are not reached",
  [R + "repeat.rs"], [("chainl1, chainr1", R + "repeat.rs")],
  ["folded value, result, committed state, remaining input"])

p("C11", "take_until, repeat_until, escaped and iterate stop exactly at their end",
  "take_until, repeat_until and repeat_skip_until take exactly the items before the first place where the end parser succeeds, and leave the stream in front of it. escaped takes exactly the longest alternation of accepted runs and escapes; iterate and count-like forms run the parser once per item of their iterator, in order, threading the stream.",
  ["inputs", "programs"], "every input and end/escape parser outcome within the bounds",
  "the place of the first match and partial overlaps with the end parser vary over all inputs",
  [R + "repeat.rs"], [("take_until, repeat_until", R + "repeat.rs"), ("escaped, iterate", R + "repeat.rs")],
  ["taken items, result, committed state, remaining input"])

p("C12", "Range parsers return the exact sub-slice the grammar describes",
  "range, take, take_while, take_while1, take_until_range, take_until_bytes, take_fn, recognize, recognize_with_value and range_of-style parsers return a sub-slice of the input that starts where the parser started and ends where the documented rule says (first match, n items, longest run, what the inner parser consumed), for bytes and for text. When no such sub-slice exists they fail, and they never split a character.",
  ["inputs"], "every input, needle and length within the bounds, on slices and strings, complete and partial",
  "needles that overlap themselves, matches at the very end and multi-byte text are inputs the tests do not have",
  [R + "range.rs", R + "byte.rs"], [("range parsers", R + "range.rs"), ("take_until_byte(s) via memchr", R + "byte.rs")],
  ["returned slice, result, committed state, remaining input"])

p("C13", "Token and character-class parsers accept exactly their class",
  "Every single-token parser (token, satisfy, satisfy_map, one_of, none_of, any, digit, letter, space, hex_digit and the other character and byte classes) accepts a token exactly when it lies in the documented class, returns that token and advances by it; otherwise it fails without consuming. tokens, tokens_cmp, string, string_cmp, bytes, bytes_cmp and crlf accept exactly their literal sequence and fail otherwise, committed exactly when some of it had matched; eof succeeds exactly at the end.",
  ["inputs"], "every byte and every Unicode scalar value; every literal and input within the bounds",
  "the classes are over 256 bytes and 1.1 million scalar values; tests try a few of each",
  [R + "token.rs", R + "byte.rs", R + "char.rs"], [("token parsers", R + "token.rs"), ("classes", R + "byte.rs, " + R + "char.rs")],
  ["acceptance, returned token, remaining input, committed state"])

p("C14", "Binary number parsers decode every bit pattern",
  "Each fixed-width number parser (8 to 64 bit integers, signed and unsigned, and floats, both byte orders, on slices and on token streams) consumes exactly its width in bytes and returns the number those bytes denote, bit for bit. With fewer bytes it fails (on a partial stream asking for more) and never returns a number made of other bytes.",
  ["inputs"], "all bit patterns of every width, all shorter inputs, all stream types",
  "2^64 inputs per parser; tests check one constant each",
  [R + "byte.rs"], [("num module", R + "byte.rs num")],
  ["returned number, remaining input"])

p("C15", "Chunking never changes the result of sequences, choices and look-ahead",
  "For any grammar built from sequencing, choice, optional, attempt, look-ahead and mapping, feeding the input in any chunks through incremental decoding gives the same value (or failure) and consumes the same total input as parsing it whole, and the decoder's state object is as good as new afterwards. Input is never skipped, read twice or parsed by the wrong alternative after a resume.",
  ["inputs", "programs", "schedules"], "every grammar of the stated size, every input and every division of it into chunks within the bounds",
  "the resume code of each combinator is separate from the whole-input code and depends on where every chunk ends",
  ALLP[:4] + [R + "combinator.rs", S + "mod.rs"], [("parse_partial of each combinator and its PartialState", R + "sequence.rs, choice.rs, combinator.rs"), ("decode", S + "mod.rs decode")],
  ["values and consumed lengths returned by decode over all chunkings"])

p("C16", "Chunking never changes the result of repetition",
  "For any grammar built from the repetition, separator, chain and until combinators, feeding the input in any chunks through incremental decoding gives the same collected value (or failure) and consumes the same total input as parsing it whole. No item is lost, duplicated, reordered or split by a chunk boundary, and limits on the number of items stay exact across resumes.",
  ["inputs", "programs", "schedules"], "every repetition form and limits, inputs and divisions into chunks within the bounds",
  "accumulated items live in the partial state across chunks; tests split a few protocols only",
  [R + "repeat.rs", S + "mod.rs"], [("PartialState of the repetition parsers", R + "repeat.rs"), ("decode", S + "mod.rs decode")],
  ["values and consumed lengths returned by decode over all chunkings"])

p("C17", "Chunking never changes the result of range, byte and token parsers",
  "For range parsers, recognizers, literal parsers and number parsers over bytes or text, feeding the input in any chunks (text split between characters) through incremental decoding gives the same slice or value (or failure) and consumes the same total input as parsing it whole. A parser that needs more input says so and never returns a result that more input would change, except at a declared end of input.",
  ["inputs", "schedules"], "every parser of the family, every input and division into chunks within the bounds",
  "needles and multi-byte tokens that straddle chunk boundaries need particular splits",
  [R + "range.rs", R + "byte.rs", R + "token.rs", S + "mod.rs"], [("resume offsets of range parsers", R + "range.rs"), ("recognize state", R + "range.rs"), ("decode", S + "mod.rs decode")],
  ["values and consumed lengths returned by decode over all chunkings"])

p("C18", "The decoder drives parsers over readers without losing or inventing input",
  "Decoding successive messages from a reader gives the same messages, the same total consumption and the same terminal error as parsing the concatenated input, whatever sizes the reader returns. Read errors, interruptions and end of input are reported as such, never as parsed data or a silent success, and decoding can continue after a recoverable error without losing bytes already read.",
  ["inputs", "schedules", "fault_sequences"], "every division of the input into reads, with end of input and read errors at any call, within the bounds",
  "read sizes and faults are chosen by the environment; tests use fixed chunk sizes and no faults",
  [S + "decoder.rs", S + "buf_reader.rs", S + "mod.rs"], [("decode! macro and Decoder", S + "decoder.rs"), ("buffering", S + "buf_reader.rs"), ("decode", S + "mod.rs")],
  ["values and errors returned by decode!", "positions", "bytes left in the buffer"])

p("C19", "The growing buffered reader preserves the byte stream",
  "Through any sequence of extending reads, consumes, and plain or buffered reads, the buffered reader exposes exactly the bytes of its source in order: nothing lost, repeated or reordered. An extending read only appends, and a failed read leaves the buffered bytes as they were.",
  ["inputs", "histories", "fault_sequences"], "every sequence of operations, read sizes and read errors within the bounds",
  "depends on interleavings of consume and extend with source behaviour, which tests fix",
  [S + "buf_reader.rs"], [("BufReader, Buffer, Bufferless", S + "buf_reader.rs")],
  ["bytes exposed by buffer() / fill_buf / read / extend_buf"])

p("C20", "Merged errors keep the furthest position and every alternative there",
  "When alternatives fail, the reported error is at the furthest position any of them reached, and it contains every distinct item reported there and none from earlier positions; merging is insensitive to the order and grouping of the alternatives as a set and never contains duplicates. Adding errors and expected items keeps what is there and introduces nothing else.",
  ["inputs"], "every combination of positions and error items of the merged errors within the bounds",
  "the merge is a partial order over positions and sets; tests compare a few messages",
  [S + "easy.rs", "src/error.rs"], [("Errors::merge, add_error, set_expected, set_unexpected", S + "easy.rs")],
  ["position and items of easy::Errors"])

p("C21", "The choice of error type and stream wrapper never changes parsing",
  "For every grammar and input, the outcome (value, success or failure, committed or not) and the amount of input consumed are the same with every error representation (detailed, single, string-level or minimal) and with every transparent stream wrapper (position tracking, state, span, mutable reference, detailed errors). Collecting errors is an observer only.",
  ["inputs", "programs", "configurations"], "every grammar of the stated size, every input, every error representation and wrapper within the bounds",
  "error handling re-runs parsers and resets streams, in ways that differ per error type; tests fix one type per grammar",
  ALLP[:4] + ["src/error.rs"] + [S + x for x in ("easy.rs", "position.rs", "state.rs", "span.rs")], [("error collection and re-parse in each combinator", R + "*.rs add_error"), ("error types", "src/error.rs, " + S + "easy.rs")],
  ["result, committed state, remaining input for the same grammar on different streams"])

p("C22", "Errors name exactly what was expected at the failure point",
  "After a failed parse with detailed errors, the error's position is the furthest failure point and its expected items are exactly the labels or tokens that the grammar could have accepted there, with the offending token (or end of input) as the unexpected one. expected() replaces labels, message() adds one, and silent() removes them, and a failure that consumed input keeps the inner expectations.",
  ["inputs", "programs"], "every grammar of the stated size and every input within the bounds",
  "the set of expected items is assembled by re-running parts of the grammar at error time, with offset arithmetic per combinator",
  [R + "sequence.rs", R + "choice.rs", R + "combinator.rs", R + "error.rs", R + "token.rs", S + "easy.rs"], [("add_error / parser_count / offsets", R + "*.rs"), ("expected, message, silent", R + "error.rs")],
  ["position, unexpected and expected items of easy::ParseError"])

p("C23", "Error conversions keep every item, its kind and its position",
  "Converting an error (mapping tokens, ranges or positions, or converting between error representations of a stream) keeps the number, order and kind of the items, maps exactly the payloads asked for, and leaves the position alone unless the position is what is mapped.",
  ["inputs"], "every error item kind and payload within the bounds, every conversion",
  "each kind has its own arm in each conversion; tests touch few of them",
  [S + "easy.rs", "src/error.rs"], [("map_token, map_range, map_position, into_other, into_other_error", S + "easy.rs, src/error.rs")],
  ["items and position of the converted error"])

p("C24", "Wrapping a parser does not change what it parses",
  "Passing a parser by reference, boxing it, hiding it behind opaque/factory/lazy/no_partial, type-erased partial state, Either-like dispatch, or identity mappings gives the same value, result kind, consumption and errors as the parser itself, whole or incrementally. map, flat_map, and_then and message-style adapters apply their function exactly once per success, and never on failure.",
  ["inputs", "programs", "configurations"], "every wrapper, every outcome of the inner parser, every input within the bounds",
  "each wrapper forwards a dozen methods, each in its own code; tests use the common ones",
  [R + "mod.rs", R + "combinator.rs", R + "choice.rs", R + "function.rs"], [("forwarding impls", R + "mod.rs, " + R + "combinator.rs"), ("dispatch", R + "choice.rs")],
  ["result, committed state, remaining input, errors, number of calls of the user's function"])

p("C25", "Any composition of combinators agrees with LL(1) parser semantics",
  "A parser composed of any combinators of the crate, nested in any way, returns on every input the value, the outcome (success or failure, committed or not) and the position that the combinators' documented meanings imply, independently of what ran before in the same parse. In particular, re-entering a sub-parser in a loop or after backtracking behaves like entering it the first time.",
  ["inputs", "programs"], "every program of the stated size over the stated combinators, every input within the bounds",
  "the space of compositions and inputs is far outside what tests enumerate; state left behind by one use shows only in particular nestings",
  ALLP, [("Parser methods of every combinator", R + "*.rs")],
  ["result, committed state, value, remaining input"])

p("C26", "Failing conversions report the place and commitment of their input",
  "and_then, from_str and flat_map succeed exactly when the parser and the conversion both do; when the conversion fails the parse fails with the conversion's error, at the position where the converted item began, committed exactly if the item consumed input. Spans and positions recorded by a grammar delimit exactly the input its parser consumed.",
  ["inputs", "programs"], "every input, inner outcome and conversion outcome within the bounds",
  "tests check a single failing conversion; position and commitment of the failure vary with the input",
  [R + "combinator.rs", R + "token.rs", S + "span.rs"], [("and_then, from_str, flat_map", R + "combinator.rs, " + R + "mod.rs"), ("spans", R + "combinator.rs spanned, " + S + "span.rs")],
  ["result, error position, committed state, spans"])

p("C27", "Regex-driven parsers return exactly what the engine matched",
  "The regex parsers succeed exactly when the supplied engine reports a match where required, return exactly the matched or captured sub-slices, and consume exactly up to the end that their documentation gives, for bytes and text.",
  ["inputs"], "every match position reported by the engine, every input within the bounds",
  "match positions relative to the input vary; tests use few patterns",
  [R + "regex.rs"], [("match_, find, find_many, captures, captures_many", R + "regex.rs")],
  ["returned slices, remaining input"])

p("C28", "Asynchronous decoding equals synchronous decoding",
  "Decoding over the asynchronous reader traits gives, for every readiness schedule and read size, the same messages and errors as the synchronous decoder on the same bytes.",
  ["inputs", "schedules", "fault_sequences"], "every division into reads and every pattern of pending polls within the bounds",
  "schedules are chosen by the runtime; the tests run one",
  [S + "decoder.rs", S + "buf_reader.rs"], [("decode_tokio!, decode_futures_03!, poll_extend_buf", S + "decoder.rs, " + S + "buf_reader.rs")],
  ["values and errors of the asynchronous decode macros"])

NA = {
}
PENDING = "not built yet"

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x) + "\n")
    feats = set(re.findall(r'^(c\d\d) = \[', open(os.path.join(V, "harness/Cargo.toml")).read(), re.M))
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i.lower() in feats and i not in NA:
            checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                technique="symbolic execution of the compiled implementation (LLVM bitcode from rustc) with Z3 deciding every path condition and assertion",
                level="model_checking",
                level_note="every path within the bounds listed per harness in the evidence file is explored and every assertion on it decided for all values of its symbolic inputs; sampled path models and all counterexamples are re-executed natively; nothing is claimed beyond the bounds"))
        else:
            na.append(dict(property=i, reason=NA.get(i, PENDING)))
    m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
             notes="no hooks in /repo are needed: harnesses use the public API only. See DESIGN.md.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "claimed")
main()
