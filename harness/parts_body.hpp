// Included by parts_a.cpp and parts_b.cpp, which define PART.
#include <utility>
#include <cmp/core/application.hpp>
#include <cmp/core/compiler.hpp>
#include <cmp/core/config.hpp>
#include <cmp/core/general.hpp>
#include <cmp/core/operating_system.hpp>
#include <cmp/core/platform.hpp>
#include <cmp/core/test_module.hpp>
#include <cmp/core/type_traits.hpp>
#include <cmp/unicode/algorithms.hpp>
#include <cmp/unicode/by_code_point.hpp>
#include <cmp/unicode/concepts.hpp>
#include <cmp/unicode/constants.hpp>
#include <cmp/unicode/examiners.hpp>
#include <cmp/unicode/exceptions.hpp>
#include <cmp/unicode/formats.hpp>
#include <cmp/unicode/formatters.hpp>
#include <cmp/unicode/parsers.hpp>
#include <cmp/unicode/type_traits.hpp>
#include <cmp/io/data_io_stream.hpp>
#include <cmp/io/data_input_stream.hpp>
#include <cmp/io/data_output_stream.hpp>
#include <cmp/io/file.hpp>
#include <cmp/io/opaque_container_input_resource.hpp>
#include <cmp/io/opaque_container_io_resource.hpp>
#include <cmp/io/opaque_container_output_resource.hpp>
#include <cmp/io/transparent_container_input_resource.hpp>
#include <cmp/io/transparent_container_io_resource.hpp>
#include <cmp/io/transparent_container_output_resource.hpp>
#include <cmp/io/text_io_stream.hpp>
#include <cmp/io/uio.hpp>
#include "parts.hpp"

namespace {

void* make_application (int argc, char** argv) { return new cmp::application(argc, argv); }
void drop_application (void* p) { delete static_cast<cmp::application*>(p); }
const void* application_by_app () { return cmp::app(); }
const void* application_by_class () { return cmp::application::get_instance_ptr(); }
void set_notice (const char8_t* s) { cmp::app()->set_copyright_notice(s); }
std::u8string get_notice () { return cmp::app()->get_copyright_notice(); }
int get_argc () { return cmp::app()->get_argc(); }
const void* out_address () { return &cmp::uout; }
const void* err_address () { return &cmp::uerr; }
const void* in_address () { return &cmp::uin; }
void write_out (const char8_t* s) { cmp::uout << s; }
void write_number (int n) { cmp::uout << n; }
void write_err (const char8_t* s) { cmp::uerr << s; }
void write_code_point (char32_t c) { cmp::uout << c; }
void flush () { cmp::uout.flush(); cmp::uerr.flush(); }
char32_t read () { char32_t c; cmp::uin >> c; return c; }
std::u8string read_word () { std::u8string s; cmp::uin >> s; return s; }

void
raise (
    unsigned kind
) {
    switch (kind) {
    case 0: { std::u8string s; cmp::append_code_point(s, 0xD800); break; }
    case 1: cmp::to_u32string(std::u8string{static_cast<char8_t>(0xFF)}); break;
    case 2: (void)cmp::parse_integer<int>(std::u8string(u8"x"), cmp::integer_format{}); break;
    case 3: { cmp::integer_format f; f.set_radix(1); break; }
    case 4: { std::vector<std::byte> none; cmp::transparent_container_input_resource<std::vector<std::byte>> r{none}; cmp::data_input_stream s{r}; int v; s >> v; break; }
    }
}

bool
catches (
    unsigned kind,
    void (*from) (unsigned)
) {
    try { from(kind); }
    catch (const cmp::invalid_code_point&) { return kind == 0; }
    catch (const cmp::invalid_unicode_encoding&) { return kind == 1; }
    catch (const cmp::read_past_end&) { return kind == 4; }
    catch (const std::exception&) { return kind == 2 || kind == 3; }
    return false;
}

std::u8string
round_trip (
    const std::u8string& s
) {
    return cmp::to_u8string(cmp::to_u16string(cmp::to_u32string(s)));
}

} // namespace

const part&
PART () {
    static const part p{
        make_application, drop_application, application_by_app, application_by_class, set_notice, get_notice, get_argc,
        out_address, err_address, in_address, write_out, write_number, write_code_point, write_err, flush, read, read_word, raise, catches, round_trip,
    };
    return p;
}
