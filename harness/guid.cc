// G01: generated GUIDs; Y05: the random device.
#include "rst/guid/guid.h"

#include <string>
#include <string_view>
#include <thread>

#include "rst/random/random_device.h"
#include "vfs.h"

// The text shows, in the layout of a GUID and in lower case, version 4, variant
// 10 and 122 bits each of which is a different unmodified bit of random data
// (different from those of |other|, too).
bool vf_is_guid_v4(const std::string& text, const std::string& other);

void G01_generate() {
  vf_no_abort("generating a GUID aborts");
  const rst::Guid a;
  const std::string text = a.AsString();
  vf_assert(text.size() == 36, "a GUID has 36 characters");
  vf_assert(vf_is_guid_v4(text, ""), "a GUID shows version 4, variant 10 and 122 random bits");
  vf_reach("generated");
}

void G01_views_agree() {
  vf_no_abort("generating a GUID aborts");
  const rst::Guid a;
  const std::string text = a.AsString();
  const auto internal = a.AsStringView();
  vf_assert(internal.value() == text, "AsString and AsStringView show the same text");
  const rst::Guid copy(a);
  vf_assert(copy.AsString() == text, "a copy shows the same text");
  vf_assert(vf_inside(&internal, internal.value().data()), "the text lives inside the object");
  vf_reach("generated");
}

void G01_two() {
  vf_no_abort("generating a GUID aborts");
  const rst::Guid a, b;
  const std::string x = a.AsString(), y = b.AsString();
  vf_assert(vf_is_guid_v4(y, x), "two GUIDs share no random bit");
  vf_reach("generated");
}

// Is character i of the text certainly in set i of the pattern (h: hexadecimal
// digits, l: those in lower case, else the character itself), for every i? Is
// some character certainly not in its set?
bool vf_chars_in(std::string_view text, const char* pattern);
bool vf_char_outside(std::string_view text, const char* pattern);

void G02_valid() {
  vf_no_abort("checking a string aborts");
  const std::string_view text = vf_view();
  if (rst::Guid::IsValid(text)) {
    vf_assert(text.size() == 36, "a valid GUID has 36 characters");
    vf_assert(vf_chars_in(text, "hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh"), "only hexadecimal digits and dashes in place are accepted");
    vf_reach("accepted");
  } else {
    if (text.size() == 36)
      vf_assert(vf_char_outside(text, "hhhhhhhh-hhhh-hhhh-hhhh-hhhhhhhhhhhh"), "a GUID in the documented format is accepted");
    vf_reach("rejected");
  }
}

void G02_valid_output() {
  vf_no_abort("checking a string aborts");
  const std::string_view text = vf_view();
  if (rst::Guid::IsValidOutputString(text)) {
    vf_assert(text.size() == 36, "a valid GUID has 36 characters");
    vf_assert(vf_chars_in(text, "llllllll-llll-llll-llll-llllllllllll"), "only lower-case hexadecimal digits and dashes in place are accepted");
    vf_reach("accepted");
  } else {
    if (text.size() == 36)
      vf_assert(vf_char_outside(text, "llllllll-llll-llll-llll-llllllllllll"), "a GUID in the documented format is accepted");
    vf_reach("rejected");
  }
}

void G02_string() {
  vf_no_abort("checking a string aborts");
  const std::string text = vf_string();
  const bool valid = rst::Guid::IsValid(text);
  vf_assert(valid == rst::Guid::IsValid(text), "the answer depends on the text only");
  if (rst::Guid::IsValidOutputString(text))
    vf_assert(valid, "a valid output string is valid");
  vf_reach("checked");
}

void Y05_same_thread() {
  std::random_device* const a = &rst::GetRandomDevice();
  std::random_device* const b = &rst::GetRandomDevice();
  vf_assert(a == b, "a thread has one random device");
  vf_reach("one thread");
}

void Y05_threads() {
  vfs_sched(1, 0, 0);
  std::random_device* const mine = &rst::GetRandomDevice();
  std::random_device* first = nullptr;
  std::random_device* second = nullptr;
  std::thread a([&first] { first = &rst::GetRandomDevice(); });
  std::thread b([&second] { second = &rst::GetRandomDevice(); });
  a.join();
  b.join();
  vf_assert(mine != first && mine != second && first != second,
            "no two threads share a random device");
  vf_assert(&rst::GetRandomDevice() == mine, "a thread has one random device");
  vf_reach("threads");
}
