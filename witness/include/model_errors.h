#pragma once
// A reference model of the standard exception classes: what is raised counts,
// its text does not.  Include after model_stream.h.
namespace std {
struct model_error {
    model_error() noexcept {}
    model_error(const model_error&) noexcept {}
    virtual ~model_error() {}
    virtual const char* what() const noexcept { return ""; }
};
#define MODEL_ERROR(N, B) \
    struct model_##N : B { \
        explicit model_##N(const char*) noexcept {} \
        explicit model_##N(const model_string&) noexcept {} \
    protected: \
        model_##N() noexcept {} \
    };
MODEL_ERROR(runtime_error, model_error)
MODEL_ERROR(logic_error, model_error)
MODEL_ERROR(out_of_range, model_logic_error)
MODEL_ERROR(invalid_argument, model_logic_error)
MODEL_ERROR(length_error, model_logic_error)
MODEL_ERROR(domain_error, model_logic_error)
MODEL_ERROR(range_error, model_runtime_error)
MODEL_ERROR(overflow_error, model_runtime_error)
}
#define runtime_error model_runtime_error
#define logic_error model_logic_error
#define out_of_range model_out_of_range
#define invalid_argument model_invalid_argument
#define length_error model_length_error
#define domain_error model_domain_error
#define range_error model_range_error
#define overflow_error model_overflow_error
