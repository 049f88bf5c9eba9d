// Compiled for wasm32: how the module's memory looks to JavaScript.
#include "ulight/ulight.h"
#include <stddef.h>
#define F(x) extern "C" const int off_##x = offsetof(ulight_state, x); extern "C" const int size_##x = sizeof(((ulight_state*)0)->x);
F(source) F(source_length) F(lang) F(flags) F(token_buffer) F(token_buffer_length) F(flush_tokens_data) F(flush_tokens)
F(html_tag_name) F(html_tag_name_length) F(html_attr_name) F(html_attr_name_length) F(text_buffer)
F(text_buffer_length) F(flush_text_data) F(flush_text) F(error) F(error_length)
#define G(x, t, m) extern "C" const int off_##x = offsetof(t, m);
G(entry_name, ulight_lang_entry, name) G(entry_name_length, ulight_lang_entry, name_length) G(entry_lang, ulight_lang_entry, lang)
G(view_text, ulight_string_view, text) G(view_length, ulight_string_view, length)
extern "C" const int size_state = sizeof(ulight_state), size_token = sizeof(ulight_token), align_token = alignof(ulight_token),
    size_entry = sizeof(ulight_lang_entry), size_view = sizeof(ulight_string_view), align_state = alignof(ulight_state);
