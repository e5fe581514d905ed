import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":"length","meaning":state,"where":files[-1]}]
    if observe:a["observe_at"]=[observe]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="marshalable/src/lib.rs";D="marshalable-derive/src/lib.rs";B="base/src/lib.rs";BC="base/src/constants.rs";CL="crates/tpm2-client/src/lib.rs"
TC="crates/tpm2-client/src/connection/tcp.rs";CX="crates/tpm2-impl/src/tpmctx.rs";BF="crates/tpm2-impl/src/platform/buffer.rs"
p("C01","Decoding arbitrary bytes never panics",
 "Decoding any byte string as any wire type returns a value or an error; it never panics, overflows or indexes out of bounds. This holds for every type the library can decode, including types users derive and a value's accessors after decoding.",
 ["inputs","programs"],"every wire type, derived shape and every input byte string of every length",
 "Unit tests decode a few well-formed buffers; a panic needs one particular length, count or selector combination in one of about 130 types.",
 [M,D,B,"crates/tpm2/src/marshal.rs","crates/tpm2/src/tpmt.rs"],
 [("try_unmarshal implementations","derive generator and hand-written impls"),("input cursor","marshalable UnmarshalBuf"),("tpm2 unmarshal","crates/tpm2 marshal.rs, tpmt.rs")])
p("C02","Encoding never panics and never overruns the output buffer",
 "Encoding any value that can be built through the public interface into an output buffer of any length returns an error or a byte count no larger than that buffer; it never panics. A buffer too small for the value yields an error, not a partial success, and on success the bytes behind the reported count are left as they were.",
 ["inputs","programs"],"every wire type, every constructible value (public count fields included) and every output length",
 "Tests encode into ample buffers; the failing cases are particular short lengths and inconsistent public count fields.",
 [M,D,B,"crates/tpm2/src/marshal.rs","crates/tpm2/src/tpmt.rs"],
 [("try_marshal implementations","derive generator, sized-buffer generator, hand-written impls"),("length-attribute loop","derive get_named_field_marshal")])
p("C03","Decoders read exactly the layout encoders write",
 "For every wire type the decoder consumes the same sequence of fields, selectors, counts and widths that the encoder produces, and puts each decoded piece back into the field it came from. The byte count an encoder reports is the number of bytes it wrote.",
 ["inputs","programs"],"every wire type, every variant of every tagged union, every list length up to capacity",
 "Round-trip tests cover a handful of types and variants with a few values; swapping two same-width fields or one selector is invisible to them.",
 [M,D,B],[("encoder/decoder pairs","derive generator; TpmsAttest, TpmtPublic, TpmtSensitive in base"),("externally placed selectors","base TpmsAttest/TpmtPublic/TpmtSensitive")])
p("C04","Wire layouts follow the TPM 2.0 structure definitions",
 "Every structure, list and tagged union encodes its members in the order and with the widths that TPM 2.0 Part 2 defines, including where a union's selector is placed. Buffer and list capacities are those the constants of the library state.",
 ["inputs","configurations"],"every structure, list and union member of the library's type catalogue",
 "Encoder and decoder are generated from the same declaration, so round-trip tests pass when both agree on a wrong layout.",
 [B,"base/src/commands",CL],[("structure declarations","base/src/lib.rs and commands"),("derive generator","marshalable-derive")])
p("C05","Selectors decode only to their own variant and unknown ones fail",
 "Decoding a tagged union yields exactly the variant whose selector value was read, and encoding writes the selector of the variant held. A selector that names no variant is refused with the unknown-selector error and never yields a value.",
 ["inputs"],"every union type, every possible selector value",
 "There are up to 2^32 selector values per union and tests try two or three.",
 [D,B],[("variant dispatch","derive get_enum_unmarshal_body / get_enum_marshal_body"),("discriminants","enum declarations in base")])
p("C06","Sized buffers and lists never hold or expose more than capacity",
 "However a sized buffer or list was produced (default, construction, appending, decoding, wrapping a structure), its recorded length never exceeds its capacity. Its accessors return exactly that many leading elements and never panic.",
 ["histories","inputs"],"every sequence of public operations on every sized-buffer and list type",
 "The invariant ranges over operation histories and all lengths; tests try a few lengths of one type.",
 [D,B],[("sized-buffer generator","marshalable-derive derive_tpm2b_simple"),("list helpers","base impl_tpml"),("structure wrappers","marshalable-derive derive_tpm2b_struct")],
 state="size/count field against the array length",observe="get_size, get_buffer, as_ref, count, element accessors")
p("C07","Oversized input is refused and lengths are never truncated",
 "Building a sized buffer or list from more data than it can hold fails with a size error and data that fits is stored completely, in order, with its true length. No length or count is ever narrowed to a smaller integer in a way that can change its value.",
 ["inputs"],"every input length, every length-to-integer conversion in the library",
 "Truncation needs lengths near 2^8, 2^16 or 2^32 that tests do not allocate.",
 [D,B,CL,CX,TC],[("from_bytes/new/add","sized-buffer generator, impl_tpml"),("length casts","as u16 / as u32 conversions of lengths in all crates")])
p("C08","Integers travel big-endian at full width",
 "Every integer is written most significant byte first using exactly its own width and is read back the same way, in every codec of the library and in server request and response headers.",
 ["inputs"],"every integer type, every value, every codec entry point",
 "A byte-order or width slip on one of some 25 conversion sites can be masked by symmetric round trips or palindromic test values.",
 [M,"crates/tpm2/src/marshal.rs",BF,CX],[("primitive codecs","impl_be_prim_marshalable, impl_ints"),("server buffer reads","TpmReadBuffer::read_be_*")])
p("C09","Decoding consumes input in order and short input is an error",
 "Decoding takes bytes strictly from the front, each byte once, and never beyond the end of the supplied input; what remains afterwards is exactly the unread suffix. Whenever fewer bytes remain than an item needs, decoding fails and produces no value.",
 ["inputs"],"every input length and every truncation point",
 "Every truncation point of every type would have to be tried.",
 [M,D],[("cursor","UnmarshalBuf::get"),("fixed arrays","[u8; N] codec"),("sized buffers","derive_tpm2b_simple")])
p("C10","Buffers and lists with the same contents are equal values",
 "However a sized buffer or list was obtained (default, construction from bytes or elements, appending, decoding), the storage behind its recorded length is in one fixed state for that type and never keeps input bytes or earlier contents. Two of them compare equal exactly when their lengths and visible contents agree.",
 ["histories","inputs"],"every sized-buffer and list type, every pair of ways to obtain a value, every content and length",
 "Tests compare values obtained the same way; a stale or differently filled tail shows only when a decoded value meets a constructed one.",
 [D,B],[("sized-buffer generator","marshalable-derive derive_tpm2b_simple"),("list helpers","base impl_tpml"),("equality","derived PartialEq of the generated types")],
 observe="==, and the raw storage a wrapper may copy")
p("L01","Every command sent to the TPM is correctly framed",
 "The bytes handed to the connection are one command: the tag says whether sessions follow, the size field equals the number of bytes sent, the code is the command's own code, then handles, then the authorization area if any, then the parameters, all contiguous. A command that does not fit is never sent.",
 ["inputs","programs"],"every command type, handle set, session set and parameter value",
 "Framing depends on the sizes of all parts; tests check one command code and no size or tag.",
 [CL],[("command assembly","run_command_with_handles"),("authorization area","write_command_sessions")],observe="Connection::transact command argument")
p("L02","Every supplied session is sent and its response validated",
 "Each session the caller supplies is written to the authorization area in order, the area is preceded by its exact byte length, and a successful result is returned only after each session's own response was decoded in the same order and accepted by that session. With no sessions no authorization area is sent.",
 ["inputs","programs"],"all session combinations of zero to three and all session implementations",
 "A skipped or swapped session shows up only with two or three sessions, which no test uses.",
 [CL,"crates/tpm2-client/src/sessions"],[("session writer/reader","write_command_sessions, read_response_sessions"),("session tuples","authorization_area impls")])
p("L03","Failed or malformed responses are never reported as success",
 "A non-zero response code is returned to the caller as that same code and never as success; a response whose declared size exceeds what is available, or that leaves unread bytes after its parameters and sessions, is an error. Success carries only values decoded from within the declared response.",
 ["inputs","fault_sequences"],"every response byte string and length the connection can deliver",
 "Tests script four responses; the space of responses is unbounded.",
 [CL],[("response header","read_response_header"),("response parsing","run_command_with_handles")])
p("L04","The client never panics whatever the TPM answers",
 "Running any command against any connection behaviour, including truncated, oversized or inconsistent responses, returns a result or an error and never panics.",
 ["inputs","fault_sequences"],"every response byte string, declared size and length; every connection error",
 "Hostile size fields are a 2^32 space and tests try one.",
 [CL],[("response slicing","run_command_with_handles"),("session area slicing","write_command_sessions")])
p("L05","The client interprets only bytes the TPM actually returned",
 "Response header, handles, parameters and session data are decoded only from the byte range the connection reports as received. Bytes of the receive buffer beyond that range never influence the result.",
 ["inputs","fault_sequences"],"every split between received length, declared size and buffer capacity",
 "Tests always return a consistent slice, so reading past it is invisible.",
 [CL,"crates/tpm2-client/src/connection/mod.rs"],[("use of the received slice","run_command_with_handles")])
p("L06","Password sessions send exactly the password and validate strictly",
 "A password session authorizes with the reserved password handle, an empty nonce, no attribute bits and exactly the password bytes given. It accepts a response only when nonce and authorization value are empty and the attributes are precisely continue-session; passwords beyond the limit are refused.",
 ["inputs"],"every password and every possible session response",
 "Validation is a conjunction over three fields; tests exercise one rejected value.",
 ["crates/tpm2-client/src/sessions/password.rs"],[("auth command and validation","impl Session for PasswordSession")])
p("S01","The server never panics on any request",
 "Executing any request bytes with any claimed request size, any buffer lengths and any behaviour of the platform's generator or entropy source returns normally. Out-of-range buffer accesses are reported as errors even for extreme offsets.",
 ["inputs","fault_sequences"],"every request, buffer length, offset and generator failure",
 "Two happy-path requests are tested; the panicking inputs are short buffers, extreme offsets and generator faults.",
 [CX,BF,"crates/tpm2-impl/src/handler/random.rs","crates/tpm2-impl/src/buffers/inout.rs"],[("dispatcher","execute_command"),("buffer access","platform buffer impls"),("random handler","handler/random.rs")])
p("S02","Every server reply is a complete, well-formed response",
 "Whenever execution reports n>0 response bytes, the response buffer holds at least n bytes and starts with a valid tag, a size field equal to n and the response code of this execution: zero exactly on success, otherwise the error's code. A successful reply contains all the data the command was asked for. If no response header fits, zero is reported.",
 ["inputs","fault_sequences"],"every request outcome and every response buffer length",
 "Tests look at two successful replies; all error replies and short buffers are untested.",
 [CX,"crates/tpm2-impl/src/req_resp.rs"],[("success header","execute_command"),("error header","fill_error")],observe="returned size and response buffer")
p("S03","Malformed requests are refused before anything executes",
 "A request shorter than a header, one whose size field differs from the bytes supplied, or one with an unknown command code is answered with the matching error code, and no command handler runs and no random state is consumed. A known command runs only with its own handler.",
 ["inputs"],"every request byte string and claimed size",
 "No test sends a malformed request.",
 [CX],[("header validation and dispatch","execute_command")])
p("S04","Requests are read within bounds and before the reply overwrites them",
 "Request reads never see bytes outside the claimed request, whichever buffer mode is used, and the in-place mode never reads request bytes after response bytes were written. Executing in place and with separate buffers applies the same validation and dispatch.",
 ["inputs","histories"],"every request size, buffer length and handler",
 "Overlap errors need specific sizes and the in-place mode; tests use one size.",
 ["crates/tpm2-impl/src/buffers","crates/tpm2-impl/src/req_resp.rs",BF],[("bounded view","InOutBuffer"),("one-way request-to-response conversion","RequestThenResponse::into_response")])
p("S05","Random output always comes from a properly seeded generator",
 "The generator is instantiated only from seed and nonce buffers the entropy source filled, and whenever it asks for reseeding it is reseeded with fresh entropy before producing output. A generator failure is reported as an error; no reply presents bytes the generator did not produce.",
 ["histories","fault_sequences"],"every sequence of requests, reseed demands and generator failures",
 "The test generator never asks for reseeding and never fails.",
 ["crates/tpm2-impl/src/crypto.rs","crates/tpm2-impl/src/handler/random.rs"],[("instantiation","Crypto::new"),("reseed before use","try_get_random")])
p("S06","Generator helpers fill every byte and report every failure",
 "The helpers that build one generator operation from another produce every requested byte exactly once in little-endian order, pass the caller's additional input to the first underlying call only, and return an error as soon as an underlying call fails.",
 ["inputs","fault_sequences"],"every destination length, every failure position",
 "Lengths modulo 8 and failure positions interact; no test covers the byte-filling helper.",
 ["crates/tpm2-impl/src/platform/crypto/drbg/helpers.rs"],[("helpers","fill_bytes_via_next, next_*_via_*")])
p("E01","TPM response codes match the specification",
 "Every named TPM response code has the value the TPM 2.0 specification assigns, positional error constructors combine base code, kind and position as specified, and the warning test is true exactly for warning codes. Converting a codec error yields the response code documented for it.",
 ["inputs"],"every named code, every kind and position, every 32-bit code",
 "Tests check one code and one warning out of the table.",
 ["crates/tpm2/src/errors/tpm_rc/mod.rs","marshalable/src/errors.rs"],[("code table","TpmRcError constants"),("positional constructors","*For")])
p("E02","Decoding a response code recovers its kind and position",
 "For every format-one code built from a kind and a valid position, decoding returns that same kind and position; codes that are not format-one, or carry no position, decode to nothing. Handle, parameter and session errors are never confused.",
 ["inputs"],"every 32-bit response code, every kind/position pair the format can express",
 "The single test uses a parameter error, the one kind that decodes without looking at the session bit.",
 ["crates/tpm2/src/errors/tpm_rc/mod.rs"],[("decoder","ErrorType::from_mask, ErrorPosition::from_mask, format1_parameter")])
p("E03","Errors keep their code across layers and are never zero",
 "Converting between error types of different layers preserves the numeric code, each client layer's codes lie in that layer's own range with the TSS-assigned value, and no error value is zero. A raw code converts to an error exactly when it is non-zero.",
 ["inputs"],"every code and every conversion",
 "Conversions are only exercised implicitly for two codes.",
 ["crates/tpm2/src/errors"],[("layered codes","tss_rc.rs"),("conversions","errors/mod.rs, marshalable/src/errors.rs")])
p("K01","Protocol constants carry their specified values",
 "Every algorithm, command, structure-tag, capability, property, handle, curve and attribute-bit constant has the numeric value assigned by the TPM 2.0 specification, and constants that appear in more than one table agree. Derived size limits follow from them as specified.",
 ["configurations"],"every constant of the protocol tables",
 "Hundreds of constants; tests use about ten.",
 [BC,B,"crates/tpm2/src/constants.rs"],[("constant tables","base/src/constants.rs; bitflags in base/src/lib.rs; Alg in crates/tpm2")])
p("K02","Setting one attribute field never disturbs another",
 "Writing a multi-bit attribute field stores the value in exactly that field's bits and leaves all other bits unchanged; reading returns the stored field value. Values too wide for a field never spill into neighbouring bits.",
 ["inputs"],"every prior attribute value and every field value",
 "Tests use isolated fields with small values.",
 [B],[("field helpers","new/get/set_attribute_field"),("fields","TpmaNv, TpmaCc, TpmaLocality")])
p("K03","Handles are classified exactly by their specified ranges",
 "A handle is recognised as an HMAC session, policy session or NV index exactly when it lies in that kind's specified range. Checked handle types accept a raw value exactly when it belongs to their kind (or is the password pseudo-handle) and otherwise fail with the value error.",
 ["inputs"],"every 32-bit handle",
 "Range ends are where errors hide; tests probe a few points.",
 [BC,B],[("ranges","TpmHc"),("checked types","TpmiRhNvIndex, TpmiShAuthSession TryFrom")])
p("K04","Each command carries its own code, parameters and response shape",
 "Every command the library can run declares the command code the specification gives it, and its handle, parameter and response types have the layout of that command in TPM 2.0 Part 3. No two commands share a code.",
 ["programs"],"every command type",
 "Tests use fake commands; no test inspects the real command table.",
 ["base/src/commands"],[("command table","TpmCommand impls")])
p("H01","Hash algorithm tables agree with each other",
 "For every hash algorithm the identifier, digest length, size-ordered table, tagged-digest variant and identifier conversions are mutually consistent and match the specification, and the largest supported digest size is computed correctly for any set of supported algorithms. Converting to an identifier and back is lossless and unknown identifiers are refused.",
 ["inputs","configurations"],"every identifier value and every subset of supported algorithms",
 "2^16 identifiers and 2^8 support sets; only a type size is tested.",
 ["crates/tpm2/src/tpmi.rs","crates/tpm2/src/tpmt.rs","crates/tpm2/src/marshal.rs"],[("tables","TpmiAlgHash, TpmtHa, Limits::max_digest_size")])
p("H02","Unsupported hashes are never encoded or decoded and sizes are exact",
 "Encoding or decoding a tagged digest succeeds only if the limits in force support its algorithm; encoding writes identifier then digest and nothing is written for an unsupported one. The stated encoded size equals the bytes written and never exceeds the stated maximum; the returned remainder is exactly the unused part of the buffer.",
 ["inputs","configurations"],"every support set, buffer length and input",
 "No test encodes or decodes with this crate.",
 ["crates/tpm2/src/tpmt.rs","crates/tpm2/src/marshal.rs"],[("limits check","TpmtHa marshal/unmarshal"),("fixed-size codec","blanket Marshal/Unmarshal impls")])
p("T01","Simulator requests are complete, correctly coded and on the right port",
 "Each simulator operation sends its protocol's command number, header fields and payload, in order, on the channel that operation belongs to, with length fields equal to the payload length. A write that does not cover the whole message is an error, never success.",
 ["inputs","fault_sequences"],"every operation, payload length, locality and partial write",
 "The simulator is not available to the tests; no test covers this file.",
 [TC],[("operations","impl TcpConnection"),("transact","impl Connection for TcpConnection")])
p("T02","Simulator replies are read fully and checked before success",
 "An operation reports success only after reading its complete reply and a zero terminator from the same channel it wrote to; a reply longer than the caller's buffer is refused without overrunning it, and exactly the received bytes are returned. Any I/O failure along the way is returned as an error.",
 ["inputs","fault_sequences"],"every reply byte string, length field and I/O failure point",
 "Needs a misbehaving simulator; none is in the tests.",
 [TC],[("reply reading","transact, check_response_end, get_command_response_sizes, remote_handshake, act_get_signaled")])
p("T03","A started simulator process is never leaked",
 "Once the simulator process has been started, every way its owner can end (failed start-up, drop, explicit stop) asks it to stop and falls back to killing it when asking fails. A start-up that fails leaves no running child behind.",
 ["fault_sequences","crash_points"],"every failure point during start-up and every drop path",
 "Requires process and connection faults at specific points.",
 [TC],[("process lifetime","TcpSimulator::new, Drop for TcpSimulator")])
p("X01","No failure of an underlying operation is silently dropped",
 "Whenever an operation the library relies on (connection, session check, encoding or decoding step, generator, buffer access, simulator I/O) fails, the enclosing public operation does not report success. Retries and fall-backs that the documentation describes are the only exceptions.",
 ["fault_sequences","programs"],"every fallible call site on every path to a success return",
 "One missing propagation among hundreds of call sites shows only when that call fails.",
 [M,D,B,CL,TC,CX],[("fallible calls","all crates")])
p("X02","Portable crates stay free of std, allocation and unsafe code",
 "The type, codec, client core and server crates build without the standard library, use no heap allocation and contain no unsafe code, in every feature configuration that does not ask for the standard library. The foundation crate has no runtime dependencies.",
 ["configurations","programs"],"every crate, feature configuration and function",
 "Tests always run with the standard library present.",
 ["marshalable","base","crates/tpm2","crates/tpm2-client","crates/tpm2-impl"],[("crate attributes and dependencies","lib.rs and Cargo.toml of each crate")])
p("D01","Declarations the derive macros cannot express do not compile",
 "Deriving a codec for a union, for an enum lacking a primitive representation, explicit selectors or positional payloads, for a named array field whose length attribute is misspelt, repeated, not a plain field name, not on an array or not naming an earlier integer field, for a sized buffer other than a u16 size followed by a byte array, or for a wrapper whose capacity is not the size of a codable structure is a compile error. Such a declaration is never silently given another layout; the well-formed counterpart compiles.",
 ["programs"],"every declaration a user may derive a codec for",
 "Unit tests only contain declarations that compile.",
 [D],[("declaration checks","derive_tpm_marshal_inner, get_marshal_attribute, get_primitive, derive_tpm2b_common, derive_tpm2b_struct")])
p("N01","Random output is statistically unpredictable",
 "Bytes returned by the random command are unpredictable and uniformly distributed given a sound entropy source.",
 ["histories"],"every output sequence","A distributional claim over runtime values.",
 ["crates/tpm2-impl/src/handler/random.rs"],[("generator","Drbg trait implementations supplied by the platform")])
p("N02","The client and a real TPM interoperate end to end",
 "Every command run by the client against a conforming TPM yields the values that TPM computed.",
 ["inputs","histories"],"every command and TPM state","Needs a TPM; its behaviour is outside this repository.",
 [CL],[("command execution","run_command_with_handles")])
p("N03","Connecting to a starting simulator eventually succeeds",
 "If the simulator starts listening within the retry window, connecting succeeds; otherwise it fails within a bounded time.",
 ["schedules"],"every start-up timing","Depends on wall-clock timing of another process.",
 [TC],[("retries","connect_with_retries, read_port_from_file_with_retries")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
