// One part of a program: what it sees and does of the library's shared objects.
#pragma once
#include <string>

struct part {
    void* (*make_application) (int argc, char** argv);
    void (*drop_application) (void*);
    const void* (*application_by_app) ();
    const void* (*application_by_class) ();
    void (*set_notice) (const char8_t*);
    std::u8string (*get_notice) ();
    int (*get_argc) ();
    const void* (*out_address) ();
    const void* (*err_address) ();
    const void* (*in_address) ();
    void (*write_out) (const char8_t*);
    void (*write_number) (int);
    void (*write_code_point) (char32_t);
    void (*write_err) (const char8_t*);
    void (*flush) ();
    char32_t (*read) ();
    std::u8string (*read_word) ();
    // Errors cross from one part to another with their types.
    void (*raise) (unsigned kind);
    bool (*catches) (unsigned kind, void (*from) (unsigned));
    std::u8string (*round_trip) (const std::u8string&);
};

const part& part_a ();
const part& part_b ();
