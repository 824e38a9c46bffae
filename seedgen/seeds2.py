P = "src/http1/parser.rs"
P2 = 'src/http2/parser.rs'
C, UD, UQ, UF = 'src/collect.rs', 'src/util/decode.rs', 'src/util/query.rs', 'src/util/field.rs'
S = lambda s: 's:"%s"' % s
FR = lambda n, t, f, sid=1: "\\x%02x\\x%02x\\x%02x\\x%02x\\x%02x\\x00\\x00\\x00\\x%02x" % (n >> 16, n >> 8 & 255, n & 255, t, f, sid)
MORE = [
 dict(id="status-two-bytes", property="C01",
  needs="a slice that ends after exactly two digits of the status code",
  breaks="the byte behind the slice is read",
  edits=[(P, "fn response_status_code1(", "bs_available!(context) > 2", "bs_available!(context) > 1")],
  cases=['h1 w:"HTTP/1.1 200 OK":11', 'h1 s:"HTTP/1.1 200 OK\\r\\n"']),
 dict(id="error-count-offset", property="C04",
  needs="a message that is rejected in its second or a later piece",
  breaks="the total byte count leaves out the bytes of the rejected piece",
  edits=[(P, "fn parse(", "                    self.byte_count     += context.stream_index;", "                    self.byte_count      = ::std::cmp::max(self.byte_count, context.stream_index);")],
  cases=['h1 s:"GET /a H" s:"TTQ"', 'h1 s:"GET /a HTQ"']),
 dict(id="dead-detects", property="C05",
  needs="a parser that rejected a method is given more bytes",
  breaks="it starts over instead of staying dead",
  edits=[(P, "fn parse(", "                    self.state_function  = Parser::dead;", "                    self.state_function  = match error {\n                        ParserError::Method(_) if context.stream_index > 2 => Parser::detect1,\n                        _ => Parser::dead\n                    };")],
  cases=['h1 s:"GET/ HTTP/1.1" s:"GET / HTTP/1.1\\r\\n"']),
 dict(id="status-third-digit", property="C06",
  needs="a status code in one piece whose third byte is one of the bytes behind 9",
  breaks="it is taken for a digit worth ten",
  edits=[(P, "fn response_status_code1(", "            if !is_digit!(context.byte) {\n                exit_error!(StatusCode, context.byte);\n            }\n\n            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32);", "            if context.byte < b'0' || context.byte > b':' {\n                exit_error!(StatusCode, context.byte);\n            }\n\n            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32);")],
  cases=['h1 s:"HTTP/1.1 20: OK\\r\\n\\r\\n"']),
 dict(id="fold-tab", property="C07",
  needs="a header value folded with a tab",
  breaks="the folded line is taken for a new header",
  edits=[(P, "fn check_header_name(", "if context.byte == b' ' || context.byte == b'\\t' {", "if context.byte == b' ' {")],
  cases=['h1 s:"HTTP/1.1 200 OK\\r\\na: b\\r\\n\\tc\\r\\n\\r\\n"']),
 dict(id="quoted-after-escape", property="C07",
  needs="an escaped quote directly before the closing quote of a header value",
  breaks="the string is taken to end at the escaped quote",
  edits=[(P, "fn header_escaped_value(", "        if context.byte > 0x1F && context.byte < 0x7B {\n            callback_transition!(\n                self,\n                handler,\n                context,\n                on_header_value,\n                HeaderQuotedValue,\n                header_quoted_value\n            );", "        if context.byte == b'\"' && bs_available!(context) > 0 {\n            callback_transition!(\n                self,\n                handler,\n                context,\n                on_header_value,\n                HeaderValue,\n                header_value\n            );\n        } else if context.byte > 0x1F && context.byte < 0x7B {\n            callback_transition!(\n                self,\n                handler,\n                context,\n                on_header_value,\n                HeaderQuotedValue,\n                header_quoted_value\n            );")],
  cases=['h1 s:"HTTP/1.1 200 OK\\r\\na: \\"\\\\\\"\\r\\n"', 'h1 s:"HTTP/1.1 200 OK\\r\\na: \\"\\\\\\"\\"\\r\\n\\r\\n"']),
 dict(id="chunk-lf-zero", property="C08",
  needs="chunk data that is followed by LF CR instead of CR LF",
  breaks="it is accepted",
  edits=[(P, "fn chunk_data_cr(", "if context.byte == b'\\r' {", "if context.byte == b'\\r' || (context.byte == b'\\n' && self.byte_count == 0) {")],
  cases=['h1 ic s:"1\\r\\na\\n\\n0\\r\\n\\r\\n"', 'h1 ic s:"1\\r\\na\\r\\n0\\r\\n\\r\\n"']),
 dict(id="ext-quote-semicolon", property="C09",
  needs="a chunk extension without a value that follows one with a value",
  breaks="its name is reported as the value",
  edits=[(P, "fn chunk_extension_value(", "            context.byte == b';',\n", "            context.byte == b';' && context.stream_index > 4,\n")],
  cases=['h1 ic s:"1;a=b;c\\r\\n"', 'h1 ic s:"1;a=b" s:";c\\r\\n"']),
 dict(id="part-length-sticks", property="C10",
  needs="a part with a length followed by one without whose data looks like the boundary",
  breaks="the look-alike is an error instead of data",
  edits=[(P, "fn multipart_detect_data(", "        set_lower14!(self, 0);\n\n", "        if self.byte_count == 0 {\n            set_lower14!(self, 0);\n        }\n\n")],
  cases=['h1 im c:2 b:"ab" s:"--ab\\r\\na: b\\r\\n\\r\\nxx\\r\\n--ab\\r\\nc: d\\r\\n" c:none s:"\\r\\nyy\\r\\n-z\\r\\n--ab--"', 'h1 im b:"ab" s:"--ab\\r\\na: b\\r\\n" s:"\\r\\nyy\\r\\n-z\\r\\n--ab--"']),
 dict(id="boundary-prefix-cut", property="C10",
  needs="a look-alike of the boundary cut inside it and then followed by bytes that do not match",
  breaks="the bytes of the boundary seen in the earlier piece are missing from the data",
  edits=[(P, "fn multipart_boundary(", "                v.extend_from_slice(&boundary[..get_upper14!(self) as usize]);", "                if self.byte_count < 64 {\n                    v.extend_from_slice(&boundary[..get_upper14!(self) as usize]);\n                }")],
  cases=['h1 im b:"abcdef" s:"--abcdef\\r\\na: b\\r\\n\\r\\n0123456789012345678901234567890123456789012345678901234567890123456789\\r\\n--ab" s:"xx\\r\\n--abcdef--"']),
 dict(id="url-hex-case", property="C11",
  needs="a percent escape in a name with a lower-case second digit",
  breaks="the byte decoded is wrong",
  edits=[(P, "fn url_encoded_name_hex2(", "                context.byte - 0x57\n", "                context.byte & 0x0F\n")],
  cases=['h1 iu l:8 s:"%0aa=%1f"', 'h1 iu l:6 s:"a%2dab"']),
 dict(id="reset-keeps-bits", property="C12",
  needs="a multipart parser re-initialised while it is in the middle of a boundary",
  breaks="the boundary of the next message is compared from the middle on",
  edits=[(P, "pub fn reset(", "        self.bit_data = 0;\n", "        set_lower14!(self, 0);\n")],
  cases=['h1 im b:"abcdef" s:"--abc" im b:"abcdef" s:"--abcdef\\r\\n"', 'h1 im b:"abcdef" s:"--abc" reset b:"abcdef" s:"--abcdef\\r\\n"']),
 dict(id="bracket-loop", property="C13",
  needs="an opening bracket in a header name",
  breaks="the two states for names hand the bracket to each other forever",
  edits=[(P, "fn lower_header_name(", "        if context.byte > 0x40 && context.byte < 0x5B {\n            // upper", "        if context.byte > 0x40 && context.byte < 0x5C && context.stream_index > 1 {\n            // upper")],
  cases=['h1 s:"HTTP/1.1 200 OK\\r\\nab[c: d\\r\\n\\r\\n"']),
 dict(id="quoted-del", property="C14",
  needs="DEL inside a quoted string",
  breaks="the classifier for quoted strings accepts it",
  edits=[("src/byte.rs", "static QUOTED_HEADER_FIELDS", "// DEL\nfalse,", "// DEL\ntrue,")],
  cases=['byte']),
 dict(id="h2-pad-exact", property="C15",
  needs="a frame whose padding takes all of its payload",
  breaks="the payload length goes below zero",
  edits=[(P2, "fn data_data(", "        parse_payload_data!(\n            self,\n            handler,\n            context,\n            on_data\n        );", "        let whole = bs_available!(context) >= actual_length!(self) as usize;\n\n        if whole && actual_length!(self) == 0 && pad_length!(self) > 0 {\n            dec_payload_length!(self, pad_length!(self) + 1);\n        }\n\n        parse_payload_data!(\n            self,\n            handler,\n            context,\n            on_data\n        );")],
  cases=['h2 s:"%s\\x02\\x00\\x00"' % FR(3, 0, 8)]),
 dict(id="h2-weight-pause", property="C16",
  needs="on_headers() pauses the parser",
  breaks="the header fragments of the frame are skipped",
  edits=[(P2, "fn headers_callback(", "        exit_callback!(\n            self,\n            context,\n            HeadersFragment,\n            headers_fragment\n        );", "        exit_callback!(\n            self,\n            context,\n            FramePadding,\n            frame_padding\n        );")],
  cases=['h2 p:1 s:"%s\\x00\\x00\\x00\\x01\\x05abc"' % FR(8, 1, 0x20), 'h2 p:0 s:"%s\\x00\\x00\\x00\\x01\\x05abc"' % FR(8, 1, 0x20)]),
 dict(id="h2-settings-cut", property="C16",
  needs="a settings value cut after its first byte, the first byte having its low bits set",
  breaks="the value delivered depends on the cut",
  edits=[(P2, "fn settings_value2(", "(get_u8!(context) as u32) << 16", "(get_u8!(context) as u32 & 0x7F) << 16")],
  cases=['h2 s:"%s\\x00\\x01\\x00" s:"\\xff\\x00\\x01"' % FR(6, 4, 0, 0)]),
 dict(id="h2-length-high", property="C17",
  needs="a frame header cut behind its first byte and a payload of 65536 bytes or more",
  breaks="the length loses its high byte",
  edits=[(P2, "fn frame_length1(", "        self.bit_data32a |= (get_u8!(context) as u32) << 24;", "        self.bit_data32a  = (get_u8!(context) as u32 & 0x3F) << 24;")],
  cases=['h2 s:"\\x80" s:"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x01"', 'h2 s:"\\x01" s:"\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x01"']),
 dict(id="h2-exclusive-weight", property="C18",
  needs="a PRIORITY frame with the exclusive bit and its identifier in pieces",
  breaks="the exclusive bit is lost",
  edits=[(P2, "fn priority_stream_id4(", "        self.bit_data32b |= get_u8!(context) as u32;", "        self.bit_data32b = (self.bit_data32b & 0x7FFFFFFF) | get_u8!(context) as u32;")],
  cases=['h2 s:"%s\\x80" s:"\\x00\\x00\\x03\\x10"' % FR(5, 2, 0)]),
 dict(id="h2-push-pad", property="C19",
  needs="a padded PUSH_PROMISE frame whose padding is larger than its fragment",
  breaks="the frame is not refused and its padding is cut",
  edits=[(P2, "fn push_promise_callback(", "        dec_payload_length!(self, 4);", "        dec_payload_length!(self, 4);\n\n        if pad_length!(self) > 0x7F {\n            self.bit_data32a -= 1;\n        }")],
  cases=['h2 s:"%s\\x81\\x00\\x00\\x00\\x07" s:"%s"' % (FR(0x81 + 6, 5, 8), "a" + "z" * 0x81)]),
 dict(id="h2-pause-count", property="C20",
  needs="on_rst_stream() pauses the parser",
  breaks="the result counts the bytes that follow the frame",
  edits=[(P2, "fn rst_stream_callback(", "        exit_callback!(\n            self,\n            context,\n            FrameLength1,\n            frame_length1\n        );", "        if bs_available!(context) >= 9 {\n            bs_jump!(context, 9);\n        }\n\n        exit_callback!(\n            self,\n            context,\n            FrameLength1,\n            frame_length1\n        );")],
  cases=['h2 p:1 s:"%s\\x00\\x00\\x00\\x07%sabc"' % (FR(4, 3, 0), FR(3, 0, 0))]),
 dict(id="http11-required", property="C21",
  needs="the error code HTTP_1_1_REQUIRED is turned back into its byte",
  breaks="another code comes out",
  edits=[('src/http2/error_code.rs', "pub fn as_byte(", "ErrorCode::Http11Required     => E_HTTP_1_1_REQUIRED,", "ErrorCode::Http11Required     => E_INADEQUATE_SECURITY,")],
  cases=['codes']),
 dict(id="format-length-high", property="C21",
  needs="a frame format with the highest bit of its payload length set",
  breaks="another length comes out",
  edits=[('src/http2/frame_format.rs', "pub fn payload_length(", "self.payload_length_frame_type >> 8", "(self.payload_length_frame_type & 0x7FFFFFFF) >> 8")],
  cases=['codes']),
 dict(id="dec-plus-end", property="C22",
  needs="a plus that directly follows a percent escape",
  breaks="the plus is kept",
  edits=[(UD, "pub fn decode(", "            submit!(bytes, b\" \");", "            if bs_slice_length!(context) == 1 && bytes.len() == 1 && bytes[0] == 0 {\n                submit!(bytes, b\"+\");\n            } else {\n                submit!(bytes, b\" \");\n            }")],
  cases=['dec "%00+a"', 'dec "+a"']),
 dict(id="dec-one-left", property="C22",
  needs="a single visible byte at the end behind an escape",
  breaks="the byte is lost",
  edits=[(UD, "pub fn decode(", "if context.mark_index < context.stream_index {", "if context.mark_index + ((context.mark_index > 8) as usize) < context.stream_index {")],
  cases=['dec "abcdef%41%42b"', 'dec "a%41b"']),
 dict(id="qry-slice-one", property="C23",
  needs="a value with exactly one byte before a percent escape",
  breaks="that byte is dropped",
  edits=[(UQ, "fn next(", "                if bs_slice_length!(self.context) > 1 {\n                    self.value", "                if bs_slice_length!(self.context) > 2 || (bs_slice_length!(self.context) > 1 && self.context.byte != b'%') {\n                    self.value")],
  cases=['qry "a=b%41"', 'qry "abc=d%41e"']),
 dict(id="fld-escape-quote", property="C24",
  needs="an escaped backslash directly before the closing quote",
  breaks="the quote behind it does not end the string",
  edits=[(UF, "fn next(", "                                self.value.push(self.context.byte);", "                                if self.context.byte == b'\\\\' && bs_available!(self.context) > 1 {\n                                    bs_next!(self.context);\n                                }\n\n                                self.value.push(self.context.byte);")],
  cases=['fld 59 0 "a=\\"x\\\\\\\\\\";b=c"']),
 dict(id="fld-name-keeps", property="C24",
  needs="a parameter that follows one with a name of nine bytes",
  breaks="the name of the earlier one is put before it",
  edits=[(UF, "fn next(", "        self.name.clear();", "        if self.name.len() != 9 {\n            self.name.clear();\n        }")],
  cases=['fld 59 0 "abcdefghi=x;b=c"']),
 dict(id="default-ping", property="C26",
  needs="an HTTP/2 ping whose last piece is given to a handler that does not override on_ping()",
  breaks="the parser pauses",
  edits=[('src/http2/http_handler.rs', "fn on_ping(", "        true", "        !finished || data.len() != 8")],
  cases=['defaults']),
 dict(id="h2-reset-bits", property="C27",
  needs="a parser reset in the middle of a frame header",
  breaks="bits of the old header stay in the next one",
  edits=[(P2, "pub fn reset(", "        self.reset_bit_data();", "        self.bit_data32b = 0;"), (P2, "fn frame_length1(", "        self.reset_bit_data();\n", "        self.bit_data16a = 0;\n        self.bit_data16b = 0;\n        self.bit_data32b = 0;\n\n        if self.byte_count > 0 {\n            self.bit_data32a = 0;\n        }\n")],
  cases=['h2 s:"\\x00\\x00\\xff\\x07" reset s:"%sa"' % FR(1, 0, 0), 'h2 s:"\\xff" reset s:"%sa"' % FR(1, 0, 0)]),
 dict(id="h2-empty-fragment-loop", property="C28",
  needs="an empty CONTINUATION frame with the stream going on",
  breaks="the callback is made for ever",
  edits=[(P2, "fn headers_fragment(", "        parse_payload_data!(", "        if actual_length!(self) == 0 && bs_available!(context) > 9 {\n            if handler.on_headers_fragment(b\"\", true) {\n                transition!(self, context);\n            }\n\n            exit_callback!(self, context);\n        }\n\n        parse_payload_data!(")],
  cases=['h2 s:"%s%sab"' % (FR(0, 9, 4), FR(2, 0, 0))]),
 dict(id="name-utf8-check", property="C25",
  needs="a plus behind a name of at least seven bytes that are not UTF-8",
  breaks="the string handed out is not UTF-8",
  edits=[(UQ, "fn next(", "                        self.name.push(b' ');", "                        if self.name.len() > 6 { unsafe { let n = self.name.len(); let s = ::std::mem::replace(&mut self.name, Vec::new()); bs_jump!(self.context, bs_available!(self.context)); let _ = n; return Some((String::from_utf8_unchecked(s), None)); } }\n                        self.name.push(b' ');")],
  cases=['qry "abcdefg%ff+"']),
 dict(id="version10-fast", property="C02",
  needs="a request of version 1.0 whose version arrives in one piece, or not",
  breaks="the version delivered depends on how the bytes are cut",
  edits=[(P, "fn request_http1(", "b\"HTTP/1.0\\r\") {\n                    version!(1, 0, 9);", "b\"HTTP/1.0\\r\") {\n                    version!(1, 1, 9);")],
  cases=['h1 s:"GET / HTTP/1.0\\r\\n\\r\\n"', 'h1 s:"GET / HTT" s:"P/1.0\\r\\n\\r\\n"']),
 dict(id="lookalike-pause", property="C03",
  needs="on_multipart_data() pauses the parser on a look-alike of the boundary that was cut inside the boundary",
  breaks="after resuming the next boundary is compared from the middle on",
  edits=[(P, "fn multipart_boundary(", "                set_upper14!(self, 0);\n\n                callback_transition!(\n                    self,\n                    handler,\n                    context,\n                    on_multipart_data,\n                    &v,\n                    MultipartDataByByte,\n                    multipart_data_by_byte\n                );", "                set_state!(self, MultipartDataByByte, multipart_data_by_byte);\n\n                if handler.on_multipart_data(&v) {\n                    set_upper14!(self, 0);\n                    transition!(self, context);\n                }\n\n                exit_callback!(self, context);")],
  cases=['h1 im b:"abcdef" p:5 s:"--abcdef\\r\\na: b\\r\\n\\r\\nxx\\r\\n--abc" s:"xyz\\r\\n--abcdef--"']),
 dict(id="fast-name-pause", property="C03",
  needs="on_header_name() pauses the parser on one of the well-known names",
  breaks="the name is not consumed and is taken for the value after resuming",
  edits=[(P, "fn first_header_name(", "                bs_jump!(context, $length);\n\n                callback_transition!(\n                    self,\n                    handler,\n                    context,\n                    on_header_name,\n                    $header,\n                    StripHeaderValue,\n                    strip_header_value\n                );", "                set_state!(self, StripHeaderValue, strip_header_value);\n\n                if handler.on_header_name($header) {\n                    bs_jump!(context, $length);\n                    transition!(self, context);\n                }\n\n                exit_callback!(self, context);")],
  cases=['h1 p:4 s:"HTTP/1.1 200 OK\\r\\nCookie: 0123456789012345678\\r\\n\\r\\n"', 'h1 p:4,5 s:"HTTP/1.1 200 OK\\r\\nHost: 0123456789012345678\\r\\n\\r\\n"']),
 dict(id="chunk-exact-pause", property="C08",
  needs="a chunk of more than 65535 bytes",
  breaks="its length is cut when the extension follows",
  edits=[(P, "fn chunk_length_cr(", "        } else if context.byte == b';' {\n", "        } else if context.byte == b';' {\n            if self.length > 0xFFFF && self.byte_count > 0 {\n                self.length &= 0xFFFF;\n            }\n\n")],
  cases=['h1 ic s:"1" s:"0003;a\\r\\n"', 'h1 ic s:"10003;a\\r\\n"']),
]
