P, P2 = 'src/http1/parser.rs', 'src/http2/parser.rs'
C, FS, UD, UQ, UF, B, UM = 'src/collect.rs', 'src/fsm.rs', 'src/util/decode.rs', 'src/util/query.rs', 'src/util/field.rs', 'src/byte.rs', 'src/util/mod.rs'
H1 = ['head', 'chunked', 'multipart', 'url']
ADD = "    /// Main parser loop.\n"
ADD2 = "    /// Retrieve the total byte count processed since the instantiation of the parser.\n"
MORE = [
 ('status-no-fast', ['head'], [
   (P, "fn response_status_code1(", "        if bs_available!(context) > 2 {", "        if false {")]),
 ('status-slow-fn', ['head'], [
   (P, None, ADD, "    /// Value of a digit.\n    fn digit(byte: u8) -> Option<u32> {\n        if byte >= b'0' && byte <= b'9' {\n            Some(u32::from(byte - b'0'))\n        } else {\n            None\n        }\n    }\n\n" + ADD),
   (P, "fn response_status_code2(", "        if is_digit!(context.byte) {\n            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32 * 10);\n", "        if let Some(digit) = Self::digit(context.byte) {\n            set_lower14!(self, get_lower14!(self) + digit * 10);\n"),
   (P, "fn response_status_code3(", "        if is_digit!(context.byte) {\n            set_lower14!(self, get_lower14!(self) + (context.byte - b'0') as u32);\n", "        if let Some(digit) = Self::digit(context.byte) {\n            set_lower14!(self, digit + get_lower14!(self));\n")]),
 ('head-end-match', H1[:3], [
   (P, "fn header_end(", "        if let ParserType::Chunked = self.parser_type {\n            set_state!(self, BodyFinished, body_finished);\n        } else if let ParserType::Multipart = self.parser_type {\n            set_state!(self, MultipartDetectData, multipart_detect_data);\n        } else {\n            set_state!(self, Finished, finished);\n        }\n\n        if handler.on_headers_finished() {\n            transition!(self, context);\n        }\n\n        exit_callback!(self, context);",
    "        match self.parser_type {\n            ParserType::Multipart => { set_state!(self, MultipartDetectData, multipart_detect_data); },\n            ParserType::Chunked => { set_state!(self, BodyFinished, body_finished); },\n            _ => { set_state!(self, Finished, finished); }\n        }\n\n        if !handler.on_headers_finished() {\n            exit_callback!(self, context);\n        }\n\n        transition!(self, context);")]),
 ('parse-map', H1, [
   (P, "fn parse(", """            match (self.state_function)(self, &mut handler, &mut context) {
                Ok(ParserValue::Continue) => {
                },
                Ok(ParserValue::Exit(success)) => {
                    self.byte_count += context.stream_index;

                    if let Success::Finished(_) = success {
                        self.state = ParserState::Finished;
                    }

                    return Ok(success);
                },
                Err(error) => {
                    self.byte_count     += context.stream_index;
                    self.state           = ParserState::Dead;
                    self.state_function  = Parser::dead;

                    return Err(error);
                }
            }
""", """            let value = (self.state_function)(self, &mut handler, &mut context);

            let result = match value {
                Ok(ParserValue::Continue) => continue,
                Ok(ParserValue::Exit(success)) => Ok(success),
                Err(error) => Err(error)
            };

            self.byte_count += context.stream_index;

            match result {
                Ok(Success::Finished(_)) => {
                    self.state = ParserState::Finished;
                },
                Err(_) => {
                    self.state          = ParserState::Dead;
                    self.state_function = Parser::dead;
                },
                _ => {
                }
            }

            return result;
""")]),
 ('resume-limit', ['url'], [
   (P, "pub fn resume(", """            if self.length < stream.len() {
                // amount of data to process is less than the stream length
                stream = &stream[0..self.length];
            }

            let mut context = ByteStream::new(stream);
""", """            let limit = ::std::cmp::min(self.length, stream.len());

            stream = &stream[..limit];

            let mut context = ByteStream::new(stream);
"""),
   (P, "pub fn resume(", """                    if self.length - length == 0 {
                        self.state          = ParserState::BodyFinished;
                        self.state_function = Parser::body_finished;

                        // the same context is parsed again, and will count these bytes again
                        self.byte_count -= length;

                        self.parse(&mut handler, &mut context)
                    } else {
                        self.length -= length;

                        Ok(Success::Eos(length))
                    }""", """                    if length < self.length {
                        self.length -= length;

                        return Ok(Success::Eos(length));
                    }

                    self.state_function = Parser::body_finished;
                    self.state          = ParserState::BodyFinished;
                    self.byte_count    -= length;

                    self.parse(&mut handler, &mut context)""")]),
 ('space-loop', H1[:3] + ['field'], [
   (C, "macro_rules! consume_linear_space", """        bs_available!($context) > 0 || $on_eos;

        unsafe {
            if bs_starts_with1!($context, b" ") || bs_starts_with1!($context, b"\\t") {
                loop {
                    bs_available!($context) > 0 || $on_eos;

                    bs_next!($context);

                    if !($context.byte == b' ' || $context.byte == b'\\t') {
                        break;
                    }
                }
            } else {
                bs_next!($context);
            }
        }
""", """        loop {
            if bs_available!($context) == 0 {
                $on_eos;
            }

            bs_next!($context);

            match $context.byte {
                b' ' | b'\\t' => {},
                _ => break
            }
        }
""")]),
 ('mp-rest-helper', ['multipart'], [
   (P, None, ADD, "    /// Part of the boundary to compare with the next bytes.\n    fn boundary_part<'b>(boundary: &'b [u8], index: usize, available: usize) -> &'b [u8] {\n        let rest = &boundary[index..];\n\n        if rest.len() <= available {\n            rest\n        } else {\n            &rest[..available]\n        }\n    }\n\n" + ADD),
   (P, "fn multipart_boundary(", """            let slice =
                if boundary.len() - get_upper14!(self) as usize <= bs_available!(context) {
                    // compare remainder of boundary
                    &boundary[get_upper14!(self) as usize..]
                } else {
                    // compare remainder of stream
                    &boundary[
                        get_upper14!(self) as usize..
                        get_upper14!(self) as usize + bs_available!(context)
                    ]
                };
""", """            let slice = Self::boundary_part(boundary, get_upper14!(self) as usize, bs_available!(context));
""")]),
 ('mp-early-return', ['multipart'], [
   (P, "fn multipart_boundary(", """            if get_lower14!(self) == 0 {
                // reset boundary comparison index
                set_upper14!(self, 0);

                callback_transition!(
                    self,
                    handler,
                    context,
                    on_multipart_data,
                    &v,
                    MultipartDataByByte,
                    multipart_data_by_byte
                );
            }

            // we're parsing the initial boundary, and it's invalid
            //
            // there is one caveat to this error:
            //     it will always report the first byte being invalid, even if
            //     it's another byte that did not match, because we're using
            //     bs_starts_with!() vs an individual byte check
            bs_next!(context);

            exit_error!(MultipartBoundary, context.byte);
        } else if finished {""", """            if get_lower14!(self) != 0 {
                bs_next!(context);

                return Err(ParserError::MultipartBoundary(context.byte));
            }

            set_upper14!(self, 0);
            set_state!(self, MultipartDataByByte, multipart_data_by_byte);

            if handler.on_multipart_data(&v[..]) {
                transition!(self, context);
            }

            exit_callback!(self, context);
        }

        if finished {""")]),
 ('mp-data-until', ['multipart'], [
   (P, "fn multipart_data_by_length(", "        if bs_available!(context) >= self.length {\n            // collect remaining multipart data\n            bs_collect_length!(context, self.length);\n\n            self.length = 0;", "        let available = bs_available!(context);\n\n        if self.length <= available {\n            let length = self.length;\n\n            self.length = 0;\n\n            bs_collect_length!(context, length);")]),
 ('mp-first-field', ['multipart'], [
   (P, "fn multipart_hyphen1(", "        if context.byte == b'-' {", "        let first = get_lower14!(self) == 1;\n\n        if context.byte == b'-' {"),
   (P, "fn multipart_hyphen1(", "} else if get_lower14!(self) == 0 {", "} else if !first {")]),
 ('chunk-ext-match', ['chunked'], [
   (P, "fn chunk_extension_finished(", "        if context.byte == b'\\r' {\n            set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished);\n        } else {\n            set_state!(self, StripChunkExtensionName, strip_chunk_extension_name);\n        }\n", "        match context.byte {\n            b'\\r' => { set_state!(self, ChunkExtensionsFinished, chunk_extensions_finished); },\n            _ => { set_state!(self, StripChunkExtensionName, strip_chunk_extension_name); }\n        }\n")]),
 ('h2-format-let', ['h2'], [
   (P2, "fn frame_format_end(", """        if handler.on_frame_format(
            payload_length!(self),
            (self.bit_data32a & 0xFF) as u8,
            self.bit_data16a as u8,
            self.bit_data32b & 0x7FFFFFFF
        ) {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            transition!(self, context);
        } else {
            self.bit_data16a  = 0;
            self.bit_data32a &= 0xFFFFFF00;
            self.bit_data32b  = 0;

            exit_callback!(self, context);
        }
""", """        let frame_type = (self.bit_data32a & 0xFF) as u8;
        let flags      = self.bit_data16a as u8;
        let stream_id  = self.bit_data32b & 0x7FFFFFFF;
        let length     = self.bit_data32a >> 8;

        self.bit_data16a = 0;
        self.bit_data32a = length << 8;
        self.bit_data32b = 0;

        if handler.on_frame_format(length, frame_type, flags, stream_id) {
            transition!(self, context);
        }

        exit_callback!(self, context);
""")]),
 ('h2-payload-fn', ['h2'], [
   (P2, "fn data_data(", "        parse_payload_data!(\n            self,\n            handler,\n            context,\n            on_data\n        );", "        self.payload(handler, context, T::on_data)"),
   (P2, "fn ping_data(", "        parse_payload_data!(\n            self,\n            handler,\n            context,\n            on_ping\n        );", "        self.payload(handler, context, T::on_ping)"),
   (P2, None, "    #[inline]\n    fn data_data(", """    #[inline]
    fn payload(&mut self, handler: &mut T, context: &mut ByteStream, callback: fn(&mut T, &[u8], bool) -> bool)
    -> Result<ParserValue, ParserError> {
        let length = actual_length!(self);

        if length > 0 {
            exit_if_eos!(self, context);
        }

        if bs_available!(context) >= length as usize {
            bs_jump!(context, length as usize);

            dec_payload_length!(self, length);

            if pad_length!(self) > 0 {
                set_state!(self, FramePadding, frame_padding);
            } else {
                set_state!(self, FrameLength1, frame_length1);
            }

            if callback(handler, bs_slice!(context), true) {
                transition!(self, context);
            }

            exit_callback!(self, context);
        }

        dec_payload_length!(self, bs_available!(context) as u32);

        bs_jump!(context, bs_available!(context));

        if callback(handler, bs_slice!(context), false) {
            exit_eos!(self, context);
        }

        exit_callback!(self, context);
    }

    #[inline]
    fn data_data(""")]),
 ('h2-payload-generic', ['h2'], [
   (P2, "fn data_data(", "        parse_payload_data!(\n            self,\n            handler,\n            context,\n            on_data\n        );", "        self.payload(context, |data, last| handler.on_data(data, last))"),
   (P2, "fn unsupported_data(", "        parse_payload_data!(\n            self,\n            handler,\n            context,\n            on_unsupported\n        );", "        self.payload(context, |data, last| handler.on_unsupported(data, last))"),
   (P2, None, "    #[inline]\n    fn data_data(", """    #[inline]
    fn payload<F: FnMut(&[u8], bool) -> bool>(&mut self, context: &mut ByteStream, mut callback: F)
    -> Result<ParserValue, ParserError> {
        let length = actual_length!(self);

        if length > 0 {
            exit_if_eos!(self, context);
        }

        let available = bs_available!(context);
        let last      = available >= length as usize;
        let take      = if last { length } else { available as u32 };

        bs_jump!(context, take as usize);
        dec_payload_length!(self, take);

        if last {
            if pad_length!(self) > 0 {
                set_state!(self, FramePadding, frame_padding);
            } else {
                set_state!(self, FrameLength1, frame_length1);
            }
        }

        if !callback(bs_slice!(context), last) {
            exit_callback!(self, context);
        } else if last {
            transition!(self, context);
        }

        exit_eos!(self, context);
    }

    #[inline]
    fn data_data(""")]),
 ('h2-u32-from-be', ['h2'], [
   (P2, "macro_rules! read_u32", "        $into |= ($context.stream[$context.stream_index] as u32) << 24;\n        $into |= ($context.stream[$context.stream_index + 1] as u32) << 16;\n        $into |= ($context.stream[$context.stream_index + 2] as u32) << 8;\n        $into |= $context.stream[$context.stream_index + 3] as u32;\n", "        let at = $context.stream_index;\n\n        $into |= u32::from_be_bytes([$context.stream[at], $context.stream[at + 1], $context.stream[at + 2], $context.stream[at + 3]]);\n")]),
 ('h2-next-byte', ['h2'], [
   (P2, "macro_rules! get_u8", "        bs_jump!($context, 1);\n\n        $context.stream[$context.stream_index - 1]\n", "        let byte = $context.stream[$context.stream_index];\n        bs_jump!($context, 1);\n        byte\n")]),
 ('h2-new-reset', ['h2'], [
   (P2, "pub fn reset(", "        self.byte_count     = 0;\n        self.state          = ParserState::FrameLength1;\n        self.state_function = Parser::frame_length1;\n", "        set_state!(self, FrameLength1, frame_length1);\n"),
   (P2, "pub fn reset(", "        self.reset_bit_data();", "        self.reset_bit_data();\n        self.byte_count = 0;")]),
 ('h1-new-reset', H1, [
   (P, "pub fn new()", "         Parser{\n            bit_data:       0,\n            boundary:       None,\n            byte_count:     0,\n            length:         0,\n            parser_type:    ParserType::Head,\n            state:          ParserState::StripDetect,\n            state_function: Parser::detect1\n        }", "        let mut parser = Parser{\n            bit_data:       0,\n            boundary:       None,\n            byte_count:     0,\n            length:         0,\n            parser_type:    ParserType::Head,\n            state:          ParserState::Detect1,\n            state_function: Parser::detect1\n        };\n\n        parser.state = ParserState::StripDetect;\n        parser")]),
 ('init-helper', H1, [
   (P, "pub fn init_chunked(", "        self.parser_type = ParserType::Chunked;\n\n        self.reset();", "        self.init(ParserType::Chunked);"),
   (P, "pub fn init_head(", "        self.parser_type = ParserType::Head;\n\n        self.reset();", "        self.init(ParserType::Head);"),
   (P, "pub fn init_multipart(", "        self.parser_type = ParserType::Multipart;\n\n        self.reset();", "        self.init(ParserType::Multipart);"),
   (P, "pub fn init_url_encoded(", "        self.parser_type = ParserType::UrlEncoded;\n\n        self.reset();", "        self.init(ParserType::UrlEncoded);"),
   (P, None, ADD, "    /// Initialise for a type of message.\n    fn init(&mut self, parser_type: ParserType) {\n        self.parser_type = parser_type;\n        self.reset();\n    }\n\n" + ADD)]),
 ('version-helper', ['head'], [
   (P, None, ADD, "    /// Add a digit to the major version.\n    fn add_major(&mut self, byte: u8) {\n        let major = get_lower14!(self) * 10 + u32::from(byte - b'0');\n\n        set_lower14!(self, major);\n    }\n\n" + ADD)] + [
   (P, "fn %s_version_major%d(" % (k, n), "            set_lower14!(self, (get_lower14!(self) * 10) + (context.byte - b'0') as u32);", "            self.add_major(context.byte);") for k in ('request', 'response') for n in (2, 3)]),
 ('header-name-slice', ['head'], [
   (P, "fn first_header_name(", "        if bs_has_bytes!(context, 24) {", "        if bs_available!(context) >= 24 {"),
   (P, "fn first_header_name(", "} else if bs_starts_with5!(context, b\"Host:\") {\n                    name!(b\"host\", 5);\n", "} else if context.stream[context.stream_index..].starts_with(b\"Host:\") {\n                    name!(b\"host\", 5);\n")]),
 ('upper-merge', ['head'], [
   (P, "fn first_header_name(", "        if is_token(context.byte) {\n            bs_replay!(context);\n", "        let token = is_token(context.byte);\n\n        if token {\n            bs_replay!(context);\n")]),
 ('url-value-if', ['url'], [
   (P, "fn url_encoded_name(", """            b'&' | b';' => {
                callback_ignore_transition!(
                    self,
                    handler,
                    context,
                    on_url_encoded_name,
                    FirstUrlEncodedName,
                    first_url_encoded_name
                );
            },
""", """            byte if byte == b'&' || byte == b';' => {
                set_state!(self, FirstUrlEncodedName, first_url_encoded_name);

                let name = bs_slice_ignore!(context);

                if !name.is_empty() && !handler.on_url_encoded_name(name) {
                    exit_callback!(self, context);
                }

                transition!(self, context);
            },
""")]),
 ('dec-loop-break', ['decode'], [
   (UD, "pub fn decode(", "        if context.byte == b'+' {\n            submit!(bytes, b\" \");\n        } else if", "        if context.byte == b'+' {\n            bytes.push(0x20);\n        } else if")]),
 ('dec-map-err', ['decode'], [
   (UD, "pub fn decode(", """                return match str::from_utf8(&bytes) {
                    Ok(string) => Ok(string.to_string()),
                    Err(error) => Err(DecodeError::Byte(bytes[error.valid_up_to()]))
                };""", """                return str::from_utf8(&bytes)
                    .map(|string| string.to_string())
                    .map_err(|error| DecodeError::Byte(bytes[error.valid_up_to()]));""")]),
 ('qry-name-helper', ['query'], [
   (UQ, "impl<'a> QueryIterator<'a> {", "impl<'a> QueryIterator<'a> {", "impl<'a> QueryIterator<'a> {\n    /// Keep the collected bytes, without the last one, as a part of the name.\n    fn keep_name(&mut self) {\n        if bs_slice_length!(self.context) > 1 {\n            self.name.extend_from_slice(bs_slice_ignore!(self.context));\n        }\n    }\n"),
   (UQ, "fn next(", "                if bs_slice_length!(self.context) > 1 {\n                    self.name.extend_from_slice(bs_slice_ignore!(self.context));\n                }\n", "                self.keep_name();\n")]),
 ('fld-space-match', ['field'], [
   (UF, "fn next(", "                byte if byte == self.delimiter => {\n                    // name without a value\n                    submit_name!(self, FieldError);\n                },\n", ""),
   (UF, "fn next(", "                b'/' => {\n                    // this", "                byte if byte == self.delimiter && byte != b'/' => {\n                    submit_name!(self, FieldError);\n                },\n                b'/' => {\n                    // this")]),
 ('h1-two-fields', H1, [
   (P, "macro_rules! get_lower14", "($parser.bit_data >> LOWER14_SHIFT) & LOWER14_MASK", "$parser.low as u32"),
   (P, "macro_rules! get_upper14", "($parser.bit_data >> UPPER14_SHIFT) & UPPER14_MASK", "$parser.high as u32"),
   (P, "macro_rules! set_lower14", "        let bits = $bits as u32;\n\n        $parser.bit_data &= !(LOWER14_MASK << LOWER14_SHIFT);\n        $parser.bit_data |= bits << LOWER14_SHIFT;", "        $parser.low = $bits as u16;"),
   (P, "macro_rules! set_upper14", "        let bits = $bits as u32;\n\n        $parser.bit_data &= !(UPPER14_MASK << UPPER14_SHIFT);\n        $parser.bit_data |= bits << UPPER14_SHIFT;", "        $parser.high = $bits as u16;"),
   (P, None, "    bit_data: u32,\n", "    low: u16,\n\n    high: u16,\n"),
   (P, "pub fn new()", "            bit_data:       0,\n", "            low:            0,\n            high:           0,\n"),
   (P, "pub fn reset(", "        self.bit_data = 0;\n", "        self.low      = 0;\n        self.high     = 0;\n")]),
]
