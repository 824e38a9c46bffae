import json
P=[]
H1F=['src/http1/parser.rs','src/http1/http_handler.rs','src/fsm.rs','src/collect.rs','src/byte.rs']
H2F=['src/http2/parser.rs','src/http2/http_handler.rs','src/fsm.rs']
def add(id,title,stmt,over,q,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe:a['observe_at']=observe
    if state:a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':q},'why_tests_cant':why,'anchors':a})
ALLH1='for every byte sequence, every way of cutting it into resume() calls, every pattern of callbacks answering false, and each of the four HTTP/1.x parser kinds (head, chunked, multipart with any boundary of 1 to 16383 bytes without CR, url encoded with any length)'
RES=[('resume() main loop','src/http1/parser.rs Parser::resume'),('state functions','src/http1/parser.rs')]
OBS=['HttpHandler callbacks','Parser::resume() result','Parser::byte_count()','Parser::state()']
add('C01','HTTP/1 parsing never panics and never reads outside the given slice','Whatever bytes a peer sends, however they are cut into pieces and whichever callbacks pause the parser, resuming an HTTP/1.x parser never panics, never overflows and never reads outside the slice it was given.',['inputs','histories'],ALLH1,'The tests feed a few dozen well-formed messages and one bad byte at a time; the unchecked indexing and fast paths depend on how many bytes are left and which follow.',H1F,RES+[('bounded look-ahead before multi-byte jumps','src/http1/parser.rs, src/collect.rs')],OBS)
add('C02','HTTP/1 fragmentation transparency','Cutting an HTTP/1.x message into pieces at any places does not change what the handler sees: the concatenated bytes per callback kind, the order and arguments of all callbacks, how parsing ends, the error and the total byte count are the same as when the message is given whole. (Bytes still held back when a message is rejected may be delivered or not, and for a rejected multipart boundary the offending byte is not specified.)',['inputs','schedules'],'for every message and every sequence of cut points','Tests cut at each position of a few short messages; the fast paths over several bytes and the parked partial matches interact with cut positions in arbitrary messages.',H1F,RES+[('exit_if_eos / callback_eos_expr','src/fsm.rs'),('method, boundary and escape bytes carried over between calls','src/http1/parser.rs')],OBS)
add('C03','HTTP/1 pause and resume transparency','When a callback answers false, parsing stops at once with a callback result, no further callback is made, and resuming with the unconsumed bytes continues exactly where it left off: the same callbacks, bytes, ending and byte count as a run that never paused.',['inputs','schedules'],'for every message, every set of callbacks that answer false and every fragmentation','Tests pause each callback once in one message; which state survives a pause depends on the fast path taken and the bytes left.',H1F,RES+[('state is set before a callback runs','src/fsm.rs callback!, callback_transition!')],OBS)
add('C04','HTTP/1 result and byte accounting','Every result of an HTTP/1.x resume tells the truth: the end-of-stream result consumed the whole slice, finished and paused results report exactly the bytes consumed (never more than given), finished is reported exactly when the message is complete and a pause exactly when a callback answered false. The total byte count grows by exactly the bytes consumed, up to and including the offending byte when the message is rejected.',['inputs','histories'],ALLH1,'Counts are asserted for a few fixed messages; the count is updated on several exits (pause, end of stream, finish, error) in every state.',H1F,RES+[('byte_count updates','src/http1/parser.rs Parser::resume and the url encoded exits')],OBS)
add('C05','HTTP/1 finished and dead parsers stay so','Once an HTTP/1.x parser has finished a message it answers finished with zero bytes consumed and makes no more callbacks until it is reset or initialised again; once it has rejected a message it answers the dead error and makes no more callbacks. The reported state is finished or dead exactly in these cases.',['histories','inputs'],ALLH1,'Tests look at the state right after the end; not at what any later call with any data does from any ending.',H1F,[('dead and finished states','src/http1/parser.rs')]+RES,OBS)
add('C06','HTTP/1 initial line is recognised exactly','After optional leading white space a head starts with a request line (upper-case method, space, visible-character URL, space, HTTP/ version) or a status line (HTTP/ version, space, three-digit code, space, text); exactly the method, URL, status bytes and the numeric version and status code are delivered, in order, and the end of the initial line is announced once. Anything else is rejected at the first offending byte with the error kind of the element it is in.',['inputs'],'for every byte sequence given to a head parser, under every fragmentation and pause pattern','Tests check a sample of methods, versions and bad bytes; detection of HTTP/ against methods starting with H and multi-digit versions have many interleavings with cuts.',H1F,[('detect, request_*, response_* states','src/http1/parser.rs')],OBS)
add('C07','HTTP/1 header sections are recognised exactly','Header sections (of heads, chunk trailers and multipart parts) deliver each field name in lower case and each value byte for byte without the white space before it, follow quoted strings with escapes and folded lines, and announce the end of the section exactly once at the empty line. Empty names, bytes not allowed in names or values and broken line ends are rejected at the first offending byte with the matching error.',['inputs'],'for every byte sequence in a header section of the three parser kinds that have one, under every fragmentation and pause pattern','Tests use a few headers; the fast path over whole well-known names and the look-ahead depend on the bytes and on how many are left.',H1F,[('header_* states and the common-name fast path','src/http1/parser.rs'),('collect_* macros','src/collect.rs')],OBS)
add('C08','Chunked bodies are framed exactly','A chunked body delivers for each chunk a begin, its length as written in up to eight hexadecimal digits, exactly that many data bytes unchanged, and after the zero-length chunk the trailers and one body-finished. Anything that breaks the framing is rejected at the first offending byte, and no byte of one chunk is ever taken for another part.',['inputs'],'for every chunked body, every chunk length up to 2^32-1, every fragmentation and pause pattern','Tests use short chunks; the length arithmetic and the remaining-length bookkeeping across calls range over all lengths and cuts.',H1F,[('chunk_* states','src/http1/parser.rs'),('chunk length field','src/http1/parser.rs')],OBS)
add('C09','Chunk extensions are delivered exactly','Extensions of a chunk (the last one included) deliver each name in lower case and each value, plain or quoted with escapes removed, with one end after each extension and one end of all extensions before the data. Bytes not allowed in extension names or values are rejected at the first offending byte with the matching error.',['inputs'],'for every extension list on every chunk, under every fragmentation and pause pattern','Tests have a handful of extensions and none on the last chunk.',H1F,[('chunk_extension_* states','src/http1/parser.rs')],OBS)
add('C10','Multipart parts are separated exactly at the boundary','In a multipart body each delimiter (CR LF, two hyphens and the boundary) ends the data of one part and starts the next, the closing delimiter finishes the body, and all other bytes between the headers of a part and the next delimiter are delivered as its data unchanged, including partial look-alikes of the delimiter. When the handler gives a content length for a part, exactly that many bytes are its data whatever they contain.',['inputs'],'for every boundary, body, content length answers, fragmentation and pause pattern','Tests use one boundary and data without near-misses; partial matches spanning several calls are unbounded in number.',H1F,[('multipart_* states','src/http1/parser.rs'),('set_boundary','src/http1/parser.rs')],OBS)
add('C11','URL encoded bodies are decoded exactly','A url encoded body of the announced length delivers each name and value decoded (percent escapes to the byte they denote, plus to space), separated at = and at & or ;, and finishes exactly when the announced number of bytes has been processed. Malformed escapes and bytes not allowed are rejected at the first offending byte with the matching error.',['inputs'],'for every body, every announced length, every fragmentation and pause pattern','Tests use short bodies cut byte by byte with correct lengths only.',H1F,[('url_encoded states','src/http1/parser.rs'),('set_length','src/http1/parser.rs')],OBS)
add('C12','Reset or re-initialised HTTP/1 parsers behave like new ones','Whatever an HTTP/1.x parser has processed before, in whatever state it was left (mid-message, paused, finished, dead), after reset or initialisation for a kind of message it treats the next message exactly as a fresh parser of that kind would. The total byte count is kept.',['histories','inputs'],'for every earlier history and every following message','Tests reset a parser once after one complete message.',H1F,[('reset and init_*','src/http1/parser.rs')],OBS)
add('C13','HTTP/1 parsing always returns','Every resume of an HTTP/1.x parser returns after a number of steps bounded by the bytes it was given: no input, fragmentation or pause pattern makes it loop without consuming input.',['inputs','histories'],ALLH1,'A test that hangs only shows up for the input that hangs.',H1F,RES,OBS)
add('C14','Byte classes match their definition','The public byte classifiers accept exactly the RFC 7230 token characters, exactly the bytes allowed in unquoted header values and exactly those allowed in quoted header values without escaping, for each of the 256 bytes.',['inputs'],'for every byte','The classifiers are tables of 256 entries; tests look at them only through the parser for some bytes.',['src/byte.rs'],[('tables','src/byte.rs')],['byte::is_token','byte::is_header_field','byte::is_quoted_header_field'])
H2Q='for every byte sequence, every fragmentation into resume() calls and every pattern of callbacks answering false'
H2O=['http2::HttpHandler callbacks','Parser::resume() result','Parser::byte_count()']
add('C15','HTTP/2 parsing never panics and never reads outside the given slice','Whatever bytes a peer sends as HTTP/2 frames, in whatever pieces, resuming an HTTP/2 parser never panics, never overflows in its arithmetic and never reads outside the slice it was given.',['inputs','histories'],H2Q,'Tests send only frames whose lengths, padding and flags agree with each other.',H2F,[('payload length and pad length arithmetic','src/http2/parser.rs')],H2O)
add('C16','HTTP/2 fragmentation and pause transparency','Cutting a sequence of HTTP/2 frames into pieces at any places, or pausing at any callbacks and resuming with the unconsumed bytes, does not change the callbacks with their arguments, the concatenated payload bytes, nor the total byte count.',['inputs','schedules'],H2Q,'The tests cut a few frames; every multi-byte field has its own path for each way of being cut.',H2F,[('single-byte states next to whole-field reads','src/http2/parser.rs')],H2O)
add('C17','HTTP/2 frame headers are decoded exactly','Every HTTP/2 frame starts with one frame format callback giving the 24-bit length, type, flags and 31-bit stream identifier as written on the wire (reserved bit removed), and frames follow each other exactly at the boundaries their lengths define.',['inputs'],H2Q,'Tests use a few lengths and identifiers; frame boundaries depend on every length in the stream.',H2F,[('frame_* states','src/http2/parser.rs')],H2O)
add('C18','HTTP/2 frame payload fields are decoded exactly','The payload fields of headers, priority, rst stream, settings, push promise, go away and window update frames are delivered with the values on the wire (reserved and exclusive bits split off), in order, for every value.',['inputs'],H2Q,'Tests decode a few values; each field is assembled bytewise on some path per cut.',H2F,[('payload states','src/http2/parser.rs')],H2O)
add('C19','HTTP/2 data and padding are bounded by the frame','Payload data of a frame is delivered unchanged, exactly once, marked finished exactly at its last byte, without padding and never beyond the end of the frame; padding is skipped and padding longer than the frame allows is refused.',['inputs'],H2Q,'Tests have padding that fits and payloads in one or two pieces.',H2F,[('parse_payload_data!, actual_length!, frame_padding','src/http2/parser.rs')],H2O)
add('C20','HTTP/2 result and byte accounting','Every result of an HTTP/2 resume reports exactly the bytes consumed, never more than given; end of stream means all of them; a pause is reported exactly when a callback answered false; the total byte count grows by the bytes consumed; a parser that has rejected its input stays dead.',['inputs','histories'],H2Q,'Counts are asserted for few fixed frames.',H2F,[('resume','src/http2/parser.rs')],H2O)
add('C21','HTTP/2 wire codes map to the right values and back','Frame types, error codes, flags and settings identifiers of RFC 7540 map to the value of that name, every other code to the unsupported one, the predicates tell each value apart, and a frame format gives back exactly the length, type, flags and stream it was made from.',['inputs'],'for every code (8 bit; 16 bit for settings), every settings value and every 24-bit length','There are no tests for most of these mappings.',['src/http2/frame_type.rs','src/http2/error_code.rs','src/http2/flags.rs','src/http2/setting.rs','src/http2/frame_format.rs'],[('from_u8, as_byte, new and is_*','src/http2/')],['FrameType','ErrorCode','Flags','Setting','FrameFormat'])
UF=['src/util/decode.rs']
add('C22','decode() decodes exactly','Decoding a byte string gives the string with every percent escape replaced by the byte it denotes and every plus by a space, and all other visible bytes unchanged; a malformed escape or a byte that is not allowed is an error naming that byte, and nothing panics.',['inputs'],'for every byte string','Tests decode a few ASCII examples.',['src/util/decode.rs','src/util/query.rs','src/util/field.rs','src/util/mod.rs'],[('decode','src/util')],['util::decode()'])
add('C23','The query iterator yields exactly the pairs of the query','Iterating over a query string yields its name and value pairs in order, decoded, a value being absent only when there was no equals sign; a malformed part ends the iteration with one error callback, no panic and no endless iteration.',['inputs'],'for every byte string','Tests iterate over a few short queries.',['src/util/decode.rs','src/util/query.rs','src/util/field.rs','src/util/mod.rs'],[('QueryIterator','src/util')],['util::QueryIterator'])
add('C24','The field iterator yields exactly the parameters of a header field','Iterating over a header field yields its parameters in order with names optionally lower-cased and values unquoted, split at the given delimiter outside quotes; a malformed part ends the iteration with one error callback, no panic and no endless iteration.',['inputs'],'for every byte string, delimiter and normalisation setting','Tests iterate over a few short fields.',['src/util/decode.rs','src/util/query.rs','src/util/field.rs','src/util/mod.rs'],[('FieldIterator','src/util')],['util::FieldIterator'])
add('C25','Strings handed out are valid UTF-8','Every string the decoding utilities return is valid UTF-8, whatever bytes they were given: bytes that do not form UTF-8 are an error, never undefined behaviour in the caller.',['inputs'],'for every byte string given to the three utilities','Tests only decode ASCII.',['src/util/decode.rs','src/util/query.rs','src/util/field.rs','src/util/mod.rs'],[('String assembly','src/util')],['util::decode()','util::QueryIterator','util::FieldIterator'])
add('C26','Callbacks that are not overridden keep parsing','A handler that overrides only some callbacks is never stopped by the others: every callback a handler does not override answers true whatever its arguments, and the part length it does not give is unknown.',['inputs','configurations'],'for every callback of both handler traits and every argument','Tests override nearly all callbacks in their handlers and never look at the defaults.',['src/http1/http_handler.rs','src/http2/http_handler.rs'],[('default methods','http_handler.rs')],['HttpHandler'])
add('C27','A reset HTTP/2 parser behaves like a new one','Whatever an HTTP/2 parser has processed before, in whatever state it was left (in the middle of a frame, paused, dead), after reset it treats the next frames exactly as a new parser would and its byte count starts at zero again.',['histories','inputs'],'for every earlier history and every following byte sequence','Tests reset a parser never or after one complete frame.',H2F,[('reset','src/http2/parser.rs Parser::reset')],H2O)
add('C28','HTTP/2 parsing always returns','Every resume of an HTTP/2 parser returns after a number of steps bounded by the bytes it was given: no input, fragmentation or pause pattern makes it loop without consuming input.',['inputs','histories'],H2Q,'A test that hangs only shows up for the input that hangs.',H2F,[('resume() main loop','src/http2/parser.rs Parser::resume'),('state functions','src/http2/parser.rs')],H2O)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P:
    assert len(p['title'])<=80,p['title']
    assert p['statement'].count('. ')<=3,(p['id'],p['statement'])
