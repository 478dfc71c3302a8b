// The translators of /repo are written against a protobuf release whose
// converter headers use absl types. The installed protobuf (3.21) has the same
// code with its own string and status types and does not install the headers.
// These shim headers declare the newer interface in an inline namespace;
// shim_impl.cc forwards it to the installed library's JSON parser, proto writer
// and JSON printer, so the conversion itself is protobuf's own code.
#ifndef VERIF_SIMV_NS_H_
#define VERIF_SIMV_NS_H_
#ifdef SIM_SHIM_IMPL
#define SIMV_BEGIN namespace google { namespace protobuf { namespace util { namespace simv {
#else
#define SIMV_BEGIN namespace google { namespace protobuf { namespace util { inline namespace simv {
#endif
#define SIMV_END }}}}
#endif
