#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the bounds in meta.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, D, M = "base/src/lib.rs", "marshalable-derive/src/lib.rs", "marshalable/src/lib.rs"
CL, SV = "crates/tpm2-client/src", "crates/tpm2-impl/src"
P = []


def p(id, title, statement, over, text, tests, files, mech, bounds, outside, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  bounds=bounds, outside=outside, note=note, observe=list(observe)))


SHAPES = ("case split over concrete shapes (union variant, list count 0-3, payload length 0-8 bytes, PCR selection 0-4 bytes) "
          "listed in harness/src/wire.rs; every byte of contents symbolic unless stated")
p("C01", "Reading any bytes gives a value or an error",
  "Decoding a TPM structure from any byte string, of any length and content, ends with a value or an error: it never panics, overflows or reads outside the given bytes. "
  "Whatever the lengths, counts and selectors inside the bytes say, no more bytes are consumed than were given.",
  ["inputs"], "every byte string offered to the decoder of every wire type",
  "the tests decode a handful of well-formed and a few truncated buffers; hostile lengths, counts and selectors are an unbounded space",
  [M, D, B], [("derived decoders", D), ("bounds-checked cursor", M), ("hand-written decoders of unions with an outer selector", B)],
  ["scalars, handles, attribute words, schemes, hashes, PCR selections, sized buffers, clock information, points and response authorizations: every byte string up to 2-70 bytes (all_bytes! tables)",
   "composites: " + SHAPES + "; every length and count field (thorough: every selector too) in turn arbitrary"],
  ["composite structures with several hostile fields at once", "byte strings longer than the stated sizes"],
  "all byte strings within the sizes; composites one hostile field at a time")
p("C02", "Encodings are exactly the TPM 2.0 wire format",
  "Encoding any value of a TPM structure writes exactly the bytes that Part 2 of the TPM specification prescribes for it: fields in table order, big-endian, with lengths, counts and selectors in front of what they describe. "
  "The reported size is the number of bytes written, and no byte after them is touched.",
  ["inputs"], "every value of every wire type",
  "the tests compare single example encodings of a few types",
  [D, M, B], [("derived encoders", D), ("primitive encoders", M), ("field order of the structures", B)],
  [SHAPES, "reference encoder written from Part 2 in harness/src/spec.rs"], ["longer payloads and lists (see C06, C07 for capacities)"],
  "every value of the listed shapes of all wire types")
p("C03", "Well-formed encodings read back as the value they encode",
  "The Part 2 encoding of any value decodes to that same value, whatever follows it, and consumes exactly the bytes of the encoding. "
  "An encoding that is one byte short is rejected.",
  ["inputs"], "every value of every wire type and every following byte",
  "the tests round-trip single examples through the same code, which cannot see an encoder and decoder that are wrong together",
  [D, M, B], [("derived decoders", D), ("cursor", M)],
  [SHAPES, "compared field by field with the value the reference encoding was made from; truncation by one byte"], ["longer payloads and lists"],
  "every value of the listed shapes of all wire types")
p("C04", "Encoding into a buffer of any size never writes outside it",
  "Encoding a value into a destination of any length succeeds exactly when the destination is large enough for the whole encoding, and otherwise returns an error without panicking. "
  "Nothing outside the destination is ever written.",
  ["inputs"], "every destination length for every wire type",
  "the tests use large destinations or a few chosen short ones",
  [D, M, B], [("room checks in derived and primitive encoders", D + ", " + M)],
  [SHAPES + "; contents fixed here (they do not influence the room checks), destination length symbolic from 0 to two more than needed",
   "very large unions: five destination lengths in quick, every length in thorough"], ["contents other than the fixed ones (see C02)"],
  "every destination length for the listed shapes")
p("C05", "Accepted bytes are the encoding of the value they are read as",
  "If bytes are accepted as a TPM structure, encoding the value that was read gives back exactly the bytes that were consumed. "
  "There is therefore one accepted encoding per value, and no information in an accepted message is dropped or invented.",
  ["inputs"], "every accepted byte string",
  "the tests never start from arbitrary accepted bytes",
  [D, M, B], [("derived encoders and decoders", D)],
  ["leaf types: every byte string up to 2-70 bytes", "composites: " + SHAPES], ["composites with hostile sizes", "large buffers inside unions in quick (thorough covers them)"],
  "all byte strings for leaf types, all contents for composite shapes")
p("C06", "Sized buffers hold exactly the bytes they were given",
  "A sized buffer made from a byte string holds exactly these bytes, for every length up to the capacity the type is specified for, and a longer string is refused with an error; the same holds for buffers received over the wire. "
  "Size, contents and encoding always agree, and two buffers are equal exactly when their contents are.",
  ["inputs"], "every payload length and content of every sized-buffer type",
  "the tests use one or two payloads; off-by-one and stale-tail errors need the boundary lengths",
  [B, D], [("sized-buffer trait and derive", B + ", " + D)],
  ["payload contents symbolic; all lengths 0 to capacity+2 for the small types, lengths 0, small, capacity-1, capacity, capacity+1 for the large ones"],
  ["middle lengths of buffers above 66 bytes"], "all lengths for small types, boundary lengths for large types")
p("C07", "Lists keep what was added, in order, up to their capacity",
  "A list made from elements or extended one by one contains exactly these elements in that order, and reports their number. "
  "Its capacity is the one of the specification; adding to a full list is refused with TPM_RC_SIZE and leaves the list unchanged.",
  ["inputs", "histories"], "every sequence of elements, up to and beyond the capacity",
  "the tests add one or two elements",
  [B], [("list macro: new, add, count, accessor", B)],
  ["every list type: 0-3 symbolic elements made by construction, by adding and by reading followed by adding; capacity-1, capacity and capacity+1 elements with symbolic first, last and extra element"],
  ["middle elements of full lists"], "every list type at its small and boundary sizes")
p("C08", "Unions are read by their selector and only known selectors are accepted",
  "A tagged union is read as the member its selector names, and written with that selector in front. "
  "Every selector of the specification's table is accepted and every other value is rejected with the unknown-selector error, also when the selector is kept elsewhere in the structure.",
  ["inputs"], "every selector value of every union",
  "the tests try a few selectors",
  [B, D], [("union derive", D), ("public area, sensitive area, attestation: selector away from the member", B)],
  ["all 2^16 or 2^32 selector values, symbolic, for 13 unions and 3 structures with an outer selector; member bodies fixed (68 bytes; empty for the largest unions' unknown selectors in quick)"],
  ["other member bodies (C02, C03)"], "all selector values")
p("C09", "A structure placed in a sized buffer comes back unchanged",
  "Placing a structure in its sized buffer gives a buffer whose contents are the structure's encoding and from which the same structure is recovered; this also holds after a trip over the wire. "
  "A buffer that is empty or cut one byte short of the structure is refused.",
  ["inputs"], "every structure that has a sized-buffer form",
  "the tests wrap one or two example structures",
  [B, D], [("conversion between structure and buffer", B + ", " + D)],
  ["sensitive-create, public (keyed hash, symmetric, ECC; RSA in thorough) and creation data; contents symbolic; payloads 0-4 bytes; largest RSA public area in thorough"],
  ["trailing bytes after the structure inside the buffer (accepted today, not claimed)"], "all contents of the listed shapes")
p("C10", "Handles are accepted as sessions or NV indices exactly in their ranges",
  "A handle converts to an authorization session exactly when it is an HMAC session (0x02000000-0x0200003F), a policy session (0x03000000-0x0300003F) or the password handle, and to an NV index exactly when its top byte is 0x01; other handles are refused with TPM_RC_VALUE. "
  "An accepted handle is sent unchanged, and two are equal exactly when the handles are.",
  ["inputs"], "all 2^32 handles", "the tests try a few handles",
  [B, "base/src/constants.rs"], [("range checks", B)], ["none: all 2^32 values, symbolic"], ["handles read from the wire are not range checked (by design today)"],
  "complete over 32-bit handles")
p("C11", "Attribute words put every attribute at its specified bit",
  "Every attribute of objects, NV indices, sessions, algorithms, commands and localities is the bit that Part 2 gives it; setting, clearing and testing it affects exactly that bit, and all bits, reserved ones included, survive encoding and decoding. "
  "The NV index type is a separate four-bit field: setting it never changes another attribute.",
  ["inputs"], "all attribute words", "the tests look at a few bits",
  [B, "base/src/constants.rs"], [("bit flags", B), ("NV type accessors", B)], ["none: all 8- and 32-bit words, symbolic"], [], "complete over the words")
p("C12", "Response codes carry the TPM's error, kind and position",
  "An error about a handle, parameter or session at a position has the Part 2 response code, and its kind and position are recovered from that code; different errors have different codes. "
  "Plain codes and warnings have their specified values, every nonzero code reaches the caller unchanged, zero is never an error, and client-side errors carry their layer.",
  ["inputs"], "all error, kind and position combinations and all 32-bit codes", "the tests look at a few codes",
  ["crates/tpm2/src/errors"], [("format-one codes", "crates/tpm2/src/errors"), ("layered client errors", "crates/tpm2/src/errors")],
  ["positions 1-15 for parameters, 1-7 for handles and sessions; all 2^32 codes"], ["positions 8-15 of handles and sessions, which do not exist"], "complete")
p("C13", "The client sends exactly the command it was asked to run",
  "For every command, handles and zero to three authorization sessions, the bytes handed to the connection are exactly the TPM command: the tag telling whether sessions follow, the total size, the command code, handles, the authorization area with its size, and the parameters. "
  "A command that does not fit the command buffer is refused, and nothing of it is sent.",
  ["inputs"], "all parameters, handles and authorizations",
  "the tests check single commands against a fake connection",
  [CL + "/lib.rs", "base/src/commands"], [("command assembly", CL + "/lib.rs"), ("authorization area", CL + "/lib.rs, " + CL + "/sessions")],
  ["startup, get random, get capability, PCR read and two commands with one and two handles; 0-3 sessions with nonces of 0-3 and HMACs of 0-5 bytes, all contents symbolic; three sessions with nonces and HMACs at full capacity (64 bytes each); commands of 4096 bytes and one more"],
  ["nonces and HMACs of lengths in between"], "all contents of the listed command shapes")
p("C14", "No response can crash the client or make it read stale bytes",
  "Whatever bytes the connection returns as a response, of any length, the client returns a result or an error and does not panic. "
  "It uses only the bytes that were received: it never takes other contents of its buffers for part of the response.",
  ["inputs"], "every response byte string",
  "the tests feed a few responses", [CL + "/lib.rs"], [("response header and body parsing", CL + "/lib.rs")],
  ["every response of up to 40 bytes for startup, get random, a command with handles and a session, and the header and session readers; get capability with hostile sizes"],
  ["longer responses"], "all responses up to 40 bytes")
p("C15", "The caller gets exactly the result the TPM returned",
  "A command succeeds exactly when the response is complete and well-formed and its response code is zero, and then gives the handles and parameters in the response; a nonzero response code reaches the caller unchanged. "
  "Responses whose size field disagrees with what was received or that leave bytes over are errors, a connection failure is passed on as it is, and each command makes one transaction.",
  ["inputs", "fault_sequences"], "every response and connection failure", "the tests sample a few responses",
  [CL + "/lib.rs"], [("response parsing", CL + "/lib.rs")],
  ["every response of up to 36 bytes for startup, a command with handles, and one with a session; get random at lengths 10-13 and 18 (more in thorough); any connection error",
   "responses of every length up to 4096 whose first 20 bytes are arbitrary; the largest response, 4096 bytes, and every size field for it"],
  ["disagreement of the response tag with the sessions sent", "arbitrary contents beyond byte 36"], "all responses up to 36 bytes, all lengths up to 4096")
p("C16", "Every authorization session is sent and validated in order",
  "Each session's authorization is sent in order in an area with the right size, and each session validates exactly its own response authorization, in order; the command succeeds only if all of them validate, and the first failure is what the caller sees. "
  "A missing authorization is an error. A password session sends its secret unchanged under the password handle and accepts only the empty, continuing authorization.",
  ["inputs", "configurations"], "all session tuples, verdicts, authorizations and destination sizes", "the tests use one or two sessions that always agree",
  [CL + "/lib.rs", CL + "/sessions"], [("session order and validation", CL + "/lib.rs"), ("password session", CL + "/sessions/password.rs")],
  ["0-3 sessions with arbitrary verdicts; response authorizations with 1-byte nonce and 2-byte HMAC (password: 0-8 bytes each); passwords of 0-66 bytes; authorization areas into 0-44 bytes"],
  [], "all verdicts and contents within the sizes")
p("C17", "The simulator connection carries commands and responses unchanged",
  "A command sent over the TCP connection arrives on the command port as one frame of the simulator protocol with the chosen locality and exactly its bytes, and the response returned is exactly the bytes of the simulator's answer, however the answer is split into packets and whatever calls are interrupted. "
  "A response larger than the caller's buffer, a missing or nonzero end marker, an incomplete answer, an incomplete write and any failing system call are errors, and nothing outside the caller's buffer is written.",
  ["inputs", "fault_sequences", "schedules"], "all contents, packetisations, interruptions, failures and end markers",
  "there are no tests of the TCP connection without a running simulator", [CL + "/connection/tcp.rs"],
  [("transaction", CL + "/connection/tcp.rs")],
  ["commands and answers of 0-4 bytes, and commands of 1-320 bytes with an answer of 300 bytes (thorough: also 256, and split in up to three pieces); every split of the answer; up to two interruptions; one failing call; every answer length 0..complete; response sizes up to 2^32-1",
   "the standard library's TCP code is encoded too; the system calls below it (socket, connect, send, writev, recv, shutdown, close) are a model in harness/src/net.rs"],
  ["longer messages, several faults in long messages", "what the connection does after an error"], "all packetisations within the sizes")
p("C18", "Simulator control operations speak the simulator protocol",
  "Every control operation sends exactly its command code and arguments, big-endian, on the port it belongs to, waits for the simulator's answer, and returns the values in it. "
  "A nonzero end marker or a missing answer is an error and ends a multi-step operation; ending the session or stopping the simulator sends its code on both ports and closes both.",
  ["inputs", "fault_sequences"], "all arguments, answers and end markers",
  "there are no tests of the control operations without a running simulator", [CL + "/connection/tcp.rs"],
  [("control operations", CL + "/connection/tcp.rs")],
  ["hash data of 0-4 bytes; all 32-bit arguments and answers; every answer cut short; connection attempts refused 0-4 times",
   "the standard library's TCP code is encoded too; the system calls below it are a model in harness/src/net.rs"],
  ["starting and killing the simulator process (child processes and files are outside the encoding)"], "all arguments and answers")
p("C19", "The server answers every request with a well-formed response",
  "For every request, whatever its bytes and length, and every response buffer, the server does not panic and writes either nothing, when there is no room for a header, or one response with a valid tag and a size field equal to the returned size; error responses have no body. "
  "It never writes outside the response buffer, whatever the platform's generator does.",
  ["inputs", "fault_sequences"], "all requests, buffer sizes and generator behaviours", "the tests send a few requests",
  [SV + "/req_resp.rs", SV + "/tpmctx.rs", SV + "/buffers"], [("response header writing", SV + "/req_resp.rs"), ("command dispatch", SV + "/handler")],
  ["requests of up to 20 bytes, response buffers of up to 40 bytes, all bytes arbitrary, separate and in place, any size argument in place; requests and buffers of every length up to 65600 with arbitrary first 12 bytes"], ["buffers longer than 65600 bytes"],
  "all requests and buffers within the sizes")
p("C20", "The server validates requests exactly",
  "A request shorter than a header, or whose size field is not its length, or too short for its parameters is answered with TPM_RC_COMMAND_SIZE, an unknown command with TPM_RC_COMMAND_CODE, and a response that does not fit the buffer with TPM_RC_MEMORY; a valid request succeeds. "
  "A rejected request never reaches the random generator.",
  ["inputs"], "all requests and response buffer sizes", "the tests try single malformed requests",
  [SV + "/req_resp.rs", SV + "/tpmctx.rs", SV + "/handler"], [("request validation", SV + "/tpmctx.rs")],
  ["requests of up to 16 bytes (in place: 32), response buffers of up to 32 bytes, all bytes arbitrary; requests and buffers of every length up to 65600 with arbitrary first 12 bytes"], ["requests with sessions or trailing bytes, which the server leaves open today"],
  "all requests within the sizes")
p("C21", "In-place execution gives the same response as separate buffers",
  "Executing a request in place, where the response overwrites the request, gives the same size, header and generated body, and uses the platform in the same way, as executing it with separate buffers of the same sizes.",
  ["inputs", "fault_sequences"], "all requests, buffer sizes and generator behaviours", "the tests run a few requests one way",
  [SV + "/buffers", SV + "/tpmctx.rs"], [("request and response sharing one buffer", SV + "/buffers/inout.rs")],
  ["buffers of up to 34 bytes, requests of up to that size, all bytes arbitrary; requests and buffers of every length up to 65600 with arbitrary first 12 bytes (header, size and platform calls)"], [], "all requests within the sizes")
p("C22", "Random bytes come from the generator, reseeded when it asks",
  "The bytes returned for a random request are exactly what the generator produced for it, as many as asked for. "
  "When the generator asks for it, it is first reseeded with fresh entropy of the full seed size, and a reseed or generator failure is reported as TPM_RC_FAILURE without returning bytes; all of this holds for every command of a sequence.",
  ["inputs", "histories", "fault_sequences"], "all sequences of commands and generator behaviours", "the tests use one deterministic generator",
  [SV + "/handler/random.rs", SV + "/crypto.rs"], [("random handler", SV + "/handler/random.rs"), ("reseeding", SV + "/crypto.rs")],
  ["1 to 40 bytes asked for, all bytes compared; three commands in a row (six in thorough); every request size 0-65535 into buffers of 12-65600 bytes, first and last byte compared"], ["requests for zero bytes", "randomness quality of a platform's generator"],
  "all behaviours of three-command histories")
p("C23", "Random-access buffers never leave their bounds",
  "Reading or writing at an offset of a request or response buffer succeeds exactly when the whole range lies inside the buffer, for every offset and length up to the largest integer; otherwise it is reported as out of bounds and changes nothing. "
  "Reads give the bytes at the offset, integers big-endian, and writes change exactly the given range.",
  ["inputs"], "all offsets and lengths", "the tests try a few offsets",
  [SV + "/platform/buffer.rs"], [("bounds checks", SV + "/platform/buffer.rs")], ["buffers of up to 24 bytes, and of every length below 2^32 with 4-byte reads and writes and callbacks of any size; all 64-bit offsets and lengths"], [], "all offsets and lengths")
p("C24", "The generator is seeded with fresh entropy, and helpers lose nothing",
  "Creating the TPM draws a full seed and a full nonce from the entropy source and instantiates the generator with them, and fails exactly when that fails. "
  "The helpers that build bytes from integers and integers from bytes use each generated value once, little-endian, pass additional input to the first call only, and report every failure.",
  ["inputs", "fault_sequences"], "all entropy, generator outputs and failure points", "the tests use one deterministic generator",
  [SV + "/crypto.rs", SV + "/platform/crypto"], [("seeding", SV + "/tpmctx.rs, " + SV + "/crypto.rs"), ("helpers", SV + "/platform/crypto")],
  ["destinations of 0-31 bytes at the listed lengths; failure at any call"], [], "all values and failure points at the listed lengths")
p("C25", "Core crate: integers and algorithm identifiers are encoded exactly",
  "Integers, byte arrays and algorithm identifiers of the core crate are written big-endian into a destination of any length exactly when it is large enough, returning the room left after them, and read back from a source of any length, returning the bytes left; a refused source leaves the value unchanged. "
  "Only the specification's hash algorithms are accepted as such, with their digest sizes.",
  ["inputs"], "all values, destinations and sources", "the tests use examples",
  ["crates/tpm2/src/marshal.rs", "crates/tpm2/src/tpmi.rs", "crates/tpm2/src/constants.rs"], [("marshal and unmarshal traits", "crates/tpm2/src/marshal.rs")],
  ["destinations and sources of up to 12 bytes; all 2^16 algorithm identifiers"], [], "complete within the sizes")
p("C26", "Core crate: digests of unsupported algorithms are never read or written",
  "A tagged digest is written and read exactly when its algorithm is among the supported ones and the bytes are all there, with exactly its algorithm and digest; a refused source leaves the value unchanged. "
  "The largest digest and encoded size reported for a set of supported algorithms are exactly those of the set.",
  ["inputs", "configurations"], "all sets of supported algorithms, digests and lengths", "the tests use one configuration",
  ["crates/tpm2/src/tpmt.rs", "crates/tpm2/src/tpmi.rs", "crates/tpm2/src/lib.rs"], [("limits", "crates/tpm2/src/lib.rs"), ("digest encoding", "crates/tpm2/src/tpmt.rs")],
  ["all 256 sets of the eight algorithms; sources of up to 68 and destinations of up to 70 bytes; all digests"], [], "complete within the sizes")
p("C27", "A reading cursor hands out each byte once, in order",
  "Taking any sequence of lengths from a reading cursor hands out the source bytes in order and each once; a request for more than is left is refused and moves nothing, for every length up to the largest integer.",
  ["inputs", "histories"], "all sources and sequences of requests", "the tests take a few lengths", [M], [("cursor", M)],
  ["sources of up to 24 bytes, five requests (64 bytes, twelve requests in thorough); sources of every length below 2^32, four requests; all 64-bit lengths"], [], "all histories within the bounds")
p("C28", "The derive macros give user-defined types the same guarantees",
  "For a user-defined structure, length-prefixed array, tagged union or sized buffer, the derived code encodes fields in declaration order and unions behind their selector, decodes exactly that encoding, rejects undeclared selectors and lengths above the array with the matching error, and never panics. "
  "The destination is never written beyond the encoding or its own length.",
  ["inputs", "programs"], "all values and byte strings for a family of type definitions", "the tests derive for a few small types",
  [D], [("code generation", D)],
  ["a fixed family of type definitions (named and tuple structures, generics, nested, length fields of 1, 2 and 4 bytes, unions with constant-expression selectors of 1 and 2 bytes, sized buffers); all values; sources of up to 26 bytes"],
  ["other type definitions"], "all values for the listed definitions")
p("C29", "Client and server understand each other",
  "A command the client sends is taken by the server for that command with those parameters, and what the server answers is what the caller sees: unknown commands, requests too large to answer and generator failures arrive as the server's response code. "
  "A random request gives the caller the generated bytes.",
  ["inputs", "fault_sequences"], "all parameters and generator behaviours", "no test connects the two",
  [CL + "/lib.rs", SV + "/handler/random.rs", SV + "/req_resp.rs"], [("client framing", CL + "/lib.rs"), ("server dispatch", SV + "/tpmctx.rs")],
  ["server responses of up to 28 bytes; startup, get capability and get random with all parameters"], ["the last sentence is a known finding on the current tree (known_findings.txt)"],
  "all parameters; the random bytes themselves are a known finding")
p("C30", "Names stand for the numbers of the TPM specification",
  "Every named algorithm, curve, command, structure tag, capability, property, startup type and handle is sent as, and recognised from, exactly the number that Part 2 of the specification gives it; every other number is kept as it is and equals no other name.",
  ["inputs"], "all names and all numbers on the wire", "the tests use a few constants",
  ["base/src/constants.rs", B], [("constant definitions", "base/src/constants.rs")], ["none: all 8-, 16- and 32-bit numbers, symbolic, against a table written from the specification"], [], "complete")

NOT_CLAIMED = {}
TECH = "bounded symbolic execution of the real code (Kani/CBMC, SAT back end), counterexamples replayed"
ASSUME = ["Kani's translation of MIR, CBMC and the SAT solver are trusted", "the reference tables and encoders in harness/src were written from the TPM specification by hand",
          "64-bit little-endian x86 target, panic=abort semantics of Kani"]


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for q in P:
            f.write(json.dumps(dict(
                id=q["id"], title=q["title"], statement=q["statement"], quantifier=dict(over=q["over"], text=q["text"]),
                why_tests_cant=q["tests"],
                anchors=dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]],
                             observe_at=q["observe"] or ["public API of the crate"], hook_needed=None))) + "\n")
            assert len(q["title"]) <= 80, q["id"]
            assert q["statement"].count(". ") <= 2, q["id"]
    claimed = [q for q in P if q["id"] not in NOT_CLAIMED]
    json.dump(dict(
        version=1, setup_cmd="python3 tools/setup.py",
        hooks=dict(guard="none", enable="no hooks: the checks use the public API of the crates as they are", source_commits=[]),
        checks=[dict(property=q["id"], quick_cmd="python3 check.py %s quick" % q["id"], thorough_cmd="python3 check.py %s thorough" % q["id"],
                     technique=TECH, level="other",
                     level_note="Holds for every value within the stated bounds (solver verdict, unwinding assertions on): %s. Outside: %s. Trusts Kani, CBMC, CaDiCaL and the hand-written reference." % (q["note"], "; ".join(q["outside"]) or "nothing further"))
                for q in claimed],
        not_applicable=[dict(property=k, reason=v) for k, v in NOT_CLAIMED.items()],
        notes="Bounds per property: meta.json and evidence. Known findings: known_findings.txt."), open(V + "/MANIFEST.json", "w"), indent=1)
    m = json.load(open(V + "/meta.json"))
    for q in P:
        e = m.setdefault(q["id"], {})
        e["bounds"], e["outside"], e["assumptions"] = q["bounds"], q["outside"], ASSUME
        e["explanation"] = q["note"][0].upper() + q["note"][1:] + "."
    json.dump(m, open(V + "/meta.json", "w"), indent=1, sort_keys=True)


main()

# DESIGN.md, between the markers
import re
t = ""
for q in P:
    t += f"""
### {q['id']} {q['title']}
- Decides: {q['statement']}
- For {q['text']}; the tests cannot: {q['tests']}.
- Bounds: {'; '.join(q['bounds'])}.
"""
    if q["outside"]:
        t += f"- Outside: {'; '.join(q['outside'])}.\n"
    t += f"- Harnesses: `harness/src/{q['id'].lower()}.rs`; result: {q['note']}.\n"
d = open(os.path.join(V, "DESIGN.md")).read()
a, b = "<!-- generated by tools/docs.py -->", "<!-- end -->"
i, j = d.index(a) + len(a), d.index(b)
open(os.path.join(V, "DESIGN.md"), "w").write(d[:i] + t + d[j:])
