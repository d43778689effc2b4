#include "common.hpp"
#include <u5e/utf8_util.hpp>
using namespace u5e;
C bool vp_is7(char c) { return utf8_util::is_7bit_character(c); }
C bool vp_iscont(char c) { return utf8_util::is_codepoint_continuation(c); }
C bool vp_isstart(char c) { return utf8_util::is_codepoint_start(c); }
C int vp_cpsize(char c) { return utf8_util::codepoint_size(c); }
C int vp_encsize(int c) { return utf8_util::encoded_size(c); }
