#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the long lines stay reviewable)."""
import json, os
D = "bondrewd-derive/src/"
S = D + "structs/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

ENC = ("into_bytes / write_ code generation per endianness (le, be, ne)", S + "into_bytes.rs")
DEC = ("from_bytes / read_ code generation per endianness (le, be, ne) and number reassembly", S + "from_bytes.rs")
LAY = ("bit range resolution of fields, arrays, variants and fill", S + "common.rs")
ATT = ("field attribute parsing", S + "parse.rs")
BUF = ("buffer", "the packed byte array an encoded value occupies; abstractly the set of its 1-bits", "[u8; BYTE_SIZE] / &[u8] arguments of the generated API")
WHY = ("The 26 tests check a few dozen hand written layouts with one or two values each; the guarantee ranges over every combination of type, "
       "width, start bit, endianness, byte and bit order, and over every value.")

prop("C01", "Encoding then decoding returns the value",
 "For every accepted declaration (struct or enum) and every value of it whose fields fit in their declared bit lengths, from_bytes(into_bytes(v)) equals v, and the sequence can be repeated any number of times without change. "
 "The only fields exempt are those declared reserve (come back as the type's default) and read_only/redundant (come back as the bits they share); a capturing enum variant counts as a value only with an id that no other variant has, fields declared to overlap only with values that agree on the shared bits, and a nested bitfield only as far as the bits its field has.",
 ["inputs", "programs"], "all accepted declarations, all values", WHY,
 [S + "into_bytes.rs", S + "from_bytes.rs", S + "common.rs"], [ENC, DEC, LAY], ["Bitfields::into_bytes", "Bitfields::from_bytes"], [BUF])

prop("C02", "Each field's bits land at the documented place for its endianness",
 "into_bytes puts every bit of every field exactly where the declaration says: fields occupy consecutive bit ranges in declaration order unless placed with `bits`, most significant bit first for big endian, and for little endian the value's bytes in ascending order with the last, partial, byte reduced to its low bits. "
 "Per field endianness overrides the struct default, which overrides the built in default (little endian for multi byte numbers), and every bit of the output that no field owns is 0; from_bytes takes every field's bits from exactly these places.",
 ["inputs", "programs"], "all numeric types, bit lengths, start bits, endianness settings and values", WHY,
 [S + "into_bytes.rs", S + "common.rs", S + "parse.rs"], [ENC, LAY, ATT], ["Bitfields::into_bytes", "write_{field}"], [BUF])

prop("C03", "read_from and reverse reposition fields exactly",
 "With `reverse`, every access (encode, decode, read, write, slice and view functions) behaves as the same declaration without it acting on the byte-reversed buffer. "
 "With `read_from = \"lsb0\"`, every field occupies the bit range mirrored within the struct's total bits, keeping its own internal bit order, so decoding and encoding agree for any mix of widths.",
 ["inputs", "programs"], "all declarations with reverse and/or lsb0, all values and buffers",
 "Tests pin reverse and lsb0 for one or two layouts only, mostly byte aligned and unsigned.",
 [S + "common.rs", S + "into_bytes.rs", S + "from_bytes.rs"], [LAY, ENC, DEC], ["into_bytes", "from_bytes", "read_{field}", "write_{field}"], [BUF])

prop("C04", "Oversized values are truncated to the declared low bits",
 "Encoding or writing a value that does not fit its declared n bits stores exactly its low n bits (two's complement for signed, element by element for arrays), never panics, and leaves every other field's bits as if the value had fitted.",
 ["inputs", "programs"], "all fields narrower than their type, all values of the type",
 "Existing tests almost always use values that fit; truncation and its effect on neighbours is sampled in a couple of places.",
 [S + "into_bytes.rs"], [("masking of the value's bytes before OR-ing them into the buffer", S + "into_bytes.rs")], ["into_bytes", "write_{field}"], [BUF])

prop("C05", "write_{field} replaces exactly its own bits in any buffer",
 "For every buffer content, write_{field}(buf, v) makes all of that field's bits equal to v's and leaves every other bit of the buffer unchanged, whatever those bits were before. "
 "A following read_{field} returns the written value, and writes to fields that do not share bits commute.",
 ["inputs", "histories", "programs"], "all declarations, all prior buffer contents, all values, all sequences of writes",
 "Tests write over freshly encoded buffers and check one field; stale bits and clobbered neighbours only show on particular prior contents.",
 [S + "into_bytes.rs"], [("clear masks emitted before the OR of the new value", S + "into_bytes.rs")], ["write_{field}", "write_slice_{field}", "CheckedMut::write_{field}"], [BUF])

prop("C06", "All ways of reading a field agree on every buffer",
 "For every byte array, whether produced by into_bytes or arbitrary, read_{field}, the field of from_bytes, and (with dyn_fns) read_slice_{field} and the checked views return the same value, which depends only on the bits that field owns (reserve fields: only from_bytes/from_slice/from_vec return the default instead).",
 ["inputs", "programs"], "all declarations, all 2^(8N) buffers",
 "The slice and view functions are generated only with dyn_fns, which the test run never enables; arbitrary (not encoder produced) buffers are hardly tested.",
 [S + "from_bytes.rs"], [DEC], ["read_{field}", "from_bytes", "read_slice_{field}", "Checked::read_{field}"], [BUF])

prop("C07", "Signed fields decode as n-bit two's complement",
 "A signed field of n bits read from any buffer yields the two's complement value of those n bits sign-extended to the field's type, for every n from 1 to the type's width, every start bit, both endiannesses, with and without reverse/lsb0, alone or as array elements.",
 ["inputs", "programs"], "all signed types, widths, positions and bit patterns",
 "Sign handling is chosen at macro time from width, start bit and endianness; tests cover a handful of those combinations.",
 [S + "from_bytes.rs"], [("sign bit lookup and sign extension", S + "from_bytes.rs")], ["read_{field}", "from_bytes"], [BUF])

prop("C08", "Slice field access checks length exactly and never panics",
 "read_slice_{field} and write_slice_{field} succeed whenever the slice holds every byte the field occupies, agreeing with read_/write_ on it, and otherwise return a length error naming the provided and the needed byte counts without touching the slice. "
 "They never panic for any slice length.",
 ["inputs", "programs"], "all declarations, all slice lengths and contents",
 "dyn_fns is disabled in the test run, so no test executes these functions.",
 [S + "from_bytes.rs", S + "into_bytes.rs", "bondrewd/src/error.rs"], [("min_length computation in make_peek_slice_fn/make_set_slice_fn", S + "from_bytes.rs, " + S + "into_bytes.rs")],
 ["read_slice_{field}", "write_slice_{field}"], [BUF])

prop("C09", "Checked views accept exactly long-enough slices and mirror the array API",
 "check_slice and check_slice_mut succeed iff the slice has at least BYTE_SIZE bytes, otherwise they report (provided, BYTE_SIZE); reads through a view equal read_{field} on the first BYTE_SIZE bytes, writes through it change the underlying slice exactly as write_{field} would, and bytes beyond BYTE_SIZE are never read into a value or modified.",
 ["inputs", "histories", "programs"], "all declarations, slice lengths, contents and sequences of view reads and writes",
 "No test compiles the views (dyn_fns is off in the test run).",
 [S + "from_bytes.rs", S + "into_bytes.rs"], [("Checked / CheckedMut generation", S + "from_bytes.rs, " + S + "into_bytes.rs")], ["check_slice", "check_slice_mut", "{Name}Checked", "{Name}CheckedMut"], [BUF])

prop("C10", "from_slice and from_vec equal from_bytes on the prefix",
 "from_slice and from_vec on at least BYTE_SIZE bytes return exactly what from_bytes returns for the first BYTE_SIZE bytes; from_vec then has removed exactly those bytes, keeping the rest in order, and from_slice changes nothing. "
 "On fewer bytes both return the length error (provided, BYTE_SIZE) and the input is untouched, so a stream of concatenated encodings is recovered value by value.",
 ["inputs", "histories", "programs"], "all declarations, input lengths and contents, and sequences of from_vec calls on one vector",
 "No test compiles these functions (dyn_fns is off in the test run).",
 [S + "from_bytes.rs", "bondrewd/src/lib.rs"], [("BitfieldsDyn impl generation", S + "from_bytes.rs")], ["BitfieldsDyn::from_vec", "BitfieldsDyn::from_slice"],
 [("vec", "remaining undecoded bytes of a stream", "the &mut Vec<u8> argument")])

prop("C11", "Enum bitfields store the id and dispatch on it totally",
 "into_bytes of an enum value writes its variant's id in the leading id bits (a capture_id field's own value for a capturing variant) followed by that variant's fields, and zero elsewhere; decoding any buffer selects the variant whose id is stored, or the invalid/last catch-all variant for every unassigned id, with that variant's fields and captured id. "
 "read_variant_id/write_variant_id access exactly the id bits and id() returns the id that into_bytes would store.",
 ["inputs", "programs"], "all enum declarations, all variants, all id values, all buffers",
 "Tests use two or three enums and mostly assigned ids; the catch-all must hold for all other ids.",
 [S + "into_bytes.rs", S + "from_bytes.rs", S + "common.rs"], [("variant match generation", S + "into_bytes.rs, " + S + "from_bytes.rs"), LAY],
 ["into_bytes", "from_bytes", "id", "read_variant_id", "write_variant_id", "read_{variant}_{field}", "write_{variant}_{field}"], [BUF])

prop("C12", "Variant ids are assigned uniquely and predictably",
 "Every variant's id is its explicit discriminant or variant_id, or else the lowest value not used so far, taken in declaration order; all ids are distinct, and enums with duplicate ids or an id that does not fit the id bits are rejected at compile time. "
 "Comparing an enum value with an id value through PartialEq (with part_eq_enums) is true iff the value's id equals it.",
 ["inputs", "programs"], "all mixes of explicit and implicit ids, orders and invalid markers",
 "Tests fix a few assignments; gaps, reordering by `invalid` and collisions between explicit and implicit ids are not enumerated.",
 [S + "common.rs", D + "lib.rs"], [("id assignment loop", S + "common.rs"), ("PartialEq generation", D + "lib.rs")], ["id", "into_bytes", "PartialEq<id>"])

prop("C13", "BIT_SIZE and BYTE_SIZE describe the encoding exactly",
 "BIT_SIZE is the sum of the declared field lengths (not counting redundant fields and declared overlapping bits), extended to the full filled size by fill_bytes, and for enums the largest variant including the id; BYTE_SIZE is BIT_SIZE rounded up to bytes and is the length of the encoded array. "
 "Inferred lengths follow the types: bool 1 bit, char 32, numbers their width, arrays element length times count.",
 ["programs", "configurations"], "all accepted declarations",
 "Sizes are computed at macro time from attributes; tests assert them for a few structs.",
 [S + "common.rs", S + "parse.rs"], [LAY, ATT], ["Bitfields::BIT_SIZE", "Bitfields::BYTE_SIZE", "len of into_bytes()"])

prop("C14", "Consistent declarations compile, inconsistent ones are rejected",
 "A declaration is rejected at compile time iff it breaks a documented rule: two fields share bits without being declared overlapping or redundant, an enforce_bits/enforce_bytes/enforce_full_bytes total does not match, a float is not full sized, an array's bits do not match its elements, a payload or total size is exceeded, an enum lacks an id size or has it too small, a length contradicts `bits`, a field, element or block has no bits, overlapping_bits exceed the field, a field is longer than its type, fill_bytes is too small, variant ids are equal or two variants are invalid, capture_id is misused, or a field attribute is unknown or a documented attribute's value malformed. "
 "Every declaration that breaks none compiles to a working codec. The verdict is the same whether the derive is built in debug or release mode.",
 ["programs", "configurations"], "all declarations within the documented attribute language, lengths below 2^60 bytes",
 "The tests contain no rejected declaration at all (a compile failure cannot be an ordinary unit test), and only a few accepted ones.",
 [S + "common.rs", S + "parse.rs"], [("overlap check, enforcement, size checks", S + "common.rs"), ATT], ["acceptance by rustc of #[derive(Bitfields)]"])

prop("C15", "reserve, read_only, redundant and overlapping fields behave as declared",
 "into_bytes writes 0 to reserve bits and never writes read_only or redundant fields; from_bytes gives reserve fields their default but read_only, redundant and overlapping fields the bits they cover; read_/write_ functions work on all of them. "
 "Redundant fields take no space and do not move later fields, overlapping_bits only reduces the counted size, and fill bits are 0 on encode and ignored on decode, whatever the buffer held.",
 ["inputs", "programs"], "all declarations using these attributes, all values and buffers",
 "Tests cover reserve with one struct and redundant with another, on encoder produced buffers only.",
 [S + "into_bytes.rs", S + "from_bytes.rs", S + "common.rs", S + "parse.rs"], [("ReserveFieldOption/OverlapOptions handling", S + "common.rs, " + S + "into_bytes.rs, " + S + "from_bytes.rs")], ["into_bytes", "from_bytes", "read_{field}", "write_{field}"], [BUF])

prop("C16", "Nested bitfields compose",
 "A field whose type is itself a bitfield (struct or enum, alone or in an array) of n bits occupies exactly the leading n bits of its own encoding at its position in the outer layout: decoding, reading and writing it equals encoding or decoding the inner value separately and moving those bits, at any start bit, with inner and outer endianness, reverse and lsb0 chosen independently.",
 ["inputs", "programs"], "all nestings, start bits, values and buffers",
 "Tests nest a few byte aligned or single layout structs; composition must hold at every bit offset and depth.",
 [S + "into_bytes.rs", S + "from_bytes.rs"], [("ne (struct) code generation", S + "into_bytes.rs, " + S + "from_bytes.rs")], ["into_bytes", "from_bytes", "read_{field}", "write_{field}"], [BUF])

prop("C17", "Arrays store every element in order with the declared element or block size",
 "Array fields place element i after element i-1: with element lengths (explicit, inferred, or an evenly divided field length) each has the same number of bits, with a block length the elements are full sized except that the first one holds the remainder. "
 "Every element is encoded, decoded, read and written like a single field of that size, independently of the others.",
 ["inputs", "programs"], "all array element types, counts, lengths and positions, all values",
 "Two array tests exist, each with one layout and one value.",
 [S + "common.rs", S + "into_bytes.rs", S + "from_bytes.rs", S + "parse.rs"], [("ElementSubFieldIter / BlockSubFieldIter", S + "common.rs"), ENC, DEC], ["into_bytes", "from_bytes", "read_{field}", "write_{field}"], [BUF])

prop("C18", "Hex encoding is a faithful, strict text form of the bytes",
 "into_hex_upper and into_hex_lower produce two hex digits per byte of into_bytes in order, high nibble first, in the requested case (HEX_SIZE is the number of digits); from_hex, from_hex_slice and from_hex_vec accept upper, lower and mixed case and equal from_bytes of the decoded bytes. "
 "Any other character is rejected with that character and the lowest offending index, and short dynamic input with (provided, needed) lengths; longer dynamic input uses the prefix.",
 ["inputs"], "all byte values, all 256 characters at every index, all input lengths",
 "One test hexes one struct; rejection, index reporting, and the dynamic variants are untested.",
 ["bondrewd/src/hex.rs", "bondrewd/src/error.rs", D + "lib.rs"], [("nibble decode/encode tables", "bondrewd/src/hex.rs")], ["into_hex_upper", "into_hex_lower", "from_hex", "from_hex_vec", "from_hex_slice"],
 [("text", "hex form of the buffer", "[u8; 2*BYTE_SIZE]")])

prop("C19", "Primitive enums convert totally and injectively",
 "For #[derive(BitfieldEnum)], explicit values are kept, other variants get the lowest unused values in order, into_primitive is injective over the plain variants and from_primitive inverts it; every other primitive value maps to the invalid/last variant (carrying the value itself for a primitive-catching variant). "
 "Used as a field with any bit length the same mapping applies to the stored bits, and the generated PartialEq between a value and the primitive holds exactly for a plain variant and its own value (the invalid/catch-all variant equals no primitive).",
 ["inputs", "programs"], "all such enum declarations, all 256 primitive values",
 "Tests look at three enums and a few values each.",
 [D + "enums/parse.rs", D + "enums/from_bytes.rs", D + "enums/into_bytes.rs", D + "enums/partial_eq.rs"], [("value assignment and match generation", D + "enums")], ["BitfieldEnum::from_primitive", "BitfieldEnum::into_primitive", "PartialEq<u8>"])

prop("C20", "Decoding and encoding are total",
 "No byte content makes from_bytes, read_, slice, view, vector or hex functions panic, overflow or index out of bounds, and no field values make into_bytes or write_ do so; a char field whose bits are no Unicode scalar value reads as U+FFFD, and bool and float fields accept every bit pattern unchanged. "
 "Re-encoding a decoded buffer and decoding it again gives the same value, except in read_only and redundant fields.",
 ["inputs", "programs"], "all accepted declarations, all buffers, all values, with debug overflow checks on",
 "Panics hide in rare widths and contents (partial bytes, sign bits past the end, invalid chars, unassigned ids).",
 [S + "from_bytes.rs", S + "into_bytes.rs"], [DEC, ENC], ["every generated function"], [BUF])

prop("C21", "Histories of operations on one buffer follow the model",
 "Any sequence of generated operations on one buffer (writes to different fields, variant id changes, view writes, full encodes, decodes) leaves the buffer exactly as the composition of their individual effects, and reads never change it; fields not written keep their value through the whole history.",
 ["histories", "programs"], "all operation sequences over all declarations",
 "No test performs more than a few operations on one buffer, and none mixes the array, slice and view APIs.",
 [S + "from_bytes.rs", S + "into_bytes.rs"], [ENC, DEC], ["the whole generated API"], [BUF])

prop("C22", "Each feature set generates exactly its API, without std and unsafe code",
 "For every accepted declaration and every combination of the std, dyn_fns and hex_fns features, the generated code compiles, also in a no_std crate, and contains no unsafe code. The array API (read/write, from_bytes/into_bytes, ids) exists always; the slice, vec and view functions exist exactly with dyn_fns, the hex functions exactly with hex_fns, the hex slice functions with both; the crate exports traits and error types accordingly, and the error types implement std::error::Error with std. "
 "Every function does the same in every configuration, debug or release, only functions of dyn_fns and hex_fns can fail, and error texts name the offending lengths, character and index.",
 ["programs", "configurations"], "all accepted declarations, all feature combinations, all buffers",
 "The tests run in one configuration, with std; code that does not compile (or appears where it must not) in another configuration is invisible to them.",
 ["bondrewd/src/lib.rs", "bondrewd/src/error.rs", "bondrewd/src/hex.rs", D + "lib.rs", S + "from_bytes.rs", S + "into_bytes.rs", D + "enums/partial_eq.rs"],
 [("cfg(feature) gates of the traits, errors and generated functions", D + "lib.rs"), DEC, ENC], ["the crate's exports", "every generated function"], [BUF])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
