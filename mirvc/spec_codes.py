"""Wire codes of RFC 7540, section 6, 7 and 11."""
FRAME_TYPES = {'Data': 0, 'Headers': 1, 'Priority': 2, 'RstStream': 3, 'Settings': 4, 'PushPromise': 5, 'Ping': 6, 'GoAway': 7, 'WindowUpdate': 8, 'Continuation': 9}
FRAME_PREDS = {'is_continuation': 'Continuation', 'is_data': 'Data', 'is_go_away': 'GoAway', 'is_headers': 'Headers', 'is_push_ping': 'Ping', 'is_priority': 'Priority',
               'is_push_promise': 'PushPromise', 'is_rst_stream': 'RstStream', 'is_settings': 'Settings', 'is_unsupported': 'Unsupported', 'is_window_update': 'WindowUpdate'}
ERROR_CODES = {'NoError': 0, 'Protocol': 1, 'Internal': 2, 'FlowControl': 3, 'SettingsTimeout': 4, 'StreamClosed': 5, 'FrameSize': 6, 'RefusedStream': 7, 'Cancel': 8,
               'Compression': 9, 'Connect': 10, 'EnhanceYourCalm': 11, 'InadequateSecurity': 12, 'Http11Required': 13}
ERROR_PREDS = {'is_cancel': 'Cancel', 'is_compression': 'Compression', 'is_connect': 'Connect', 'is_enhance_your_calm': 'EnhanceYourCalm', 'is_flow_control': 'FlowControl',
               'is_frame_size': 'FrameSize', 'is_http_1_1_required': 'Http11Required', 'is_inadequate_security': 'InadequateSecurity', 'is_internal': 'Internal',
               'is_no_error': 'NoError', 'is_protocol': 'Protocol', 'is_refused_stream': 'RefusedStream', 'is_settings_timeout': 'SettingsTimeout', 'is_stream_closed': 'StreamClosed'}
FLAGS = {'is_ack': 1, 'is_empty': 0, 'is_end_headers': 4, 'is_end_stream': 1, 'is_padded': 8, 'is_priority': 0x20}
SETTINGS = {'HeaderTableSize': 1, 'EnablePush': 2, 'MaxConcurrentStreams': 3, 'InitialWindowSize': 4, 'MaxFrameSize': 5, 'MaxHeaderListSize': 6}
SETTING_PREDS = {'is_enable_push': 'EnablePush', 'is_header_table_size': 'HeaderTableSize', 'is_initial_window_size': 'InitialWindowSize',
                 'is_max_concurrent_streams': 'MaxConcurrentStreams', 'is_max_frame_size': 'MaxFrameSize', 'is_max_header_list_size': 'MaxHeaderListSize', 'is_unsupported': 'Unsupported'}
