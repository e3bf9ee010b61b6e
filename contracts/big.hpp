// Large configurations (beyond the visitation unrolling limit). Generated shape, plain text.
#ifndef VP_BIG_HPP
#define VP_BIG_HPP
#include "cfg.hpp"
#include <boost/mpl/vector/vector50.hpp>
namespace vp {
struct CfgBig25 { typedef TL<Obj<100, 0, 0>, Obj<101, 0, 8>, Obj<102, 0, 16>, Obj<103, 0, 0>, Obj<104, 0, 8>, Obj<105, 0, 16>, Obj<106, 0, 0>, Obj<107, 0, 8>, Obj<108, 0, 16>, Obj<109, 0, 0>, Obj<110, 0, 8>, Obj<111, 0, 16>, Obj<112, 0, 0>, Obj<113, 0, 8>, Obj<114, 0, 16>, Obj<115, 0, 0>, Obj<116, 0, 8>, Obj<117, 0, 16>, Obj<118, 0, 0>, Obj<119, 0, 8>, Obj<120, 0, 16>, Obj<121, 0, 0>, Obj<122, 0, 8>, Obj<123, 0, 16>, Obj<124, 0, 0>> L; typedef boost::make_variant_over<boost::mpl::vector25<Obj<100, 0, 0>, Obj<101, 0, 8>, Obj<102, 0, 16>, Obj<103, 0, 0>, Obj<104, 0, 8>, Obj<105, 0, 16>, Obj<106, 0, 0>, Obj<107, 0, 8>, Obj<108, 0, 16>, Obj<109, 0, 0>, Obj<110, 0, 8>, Obj<111, 0, 16>, Obj<112, 0, 0>, Obj<113, 0, 8>, Obj<114, 0, 16>, Obj<115, 0, 0>, Obj<116, 0, 8>, Obj<117, 0, 16>, Obj<118, 0, 0>, Obj<119, 0, 8>, Obj<120, 0, 16>, Obj<121, 0, 0>, Obj<122, 0, 8>, Obj<123, 0, 16>, Obj<124, 0, 0>> >::type V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgBig25"; } static void fail_into(V*, int) { vp_assume(false); } };
struct CfgBig45 { typedef TL<Obj<200, 0, 0>, Obj<201, 0, 8>, Obj<202, 0, 16>, Obj<203, 0, 0>, Obj<204, 0, 8>, Obj<205, 0, 16>, Obj<206, 0, 0>, Obj<207, 0, 8>, Obj<208, 0, 16>, Obj<209, 0, 0>, Obj<210, 0, 8>, Obj<211, 0, 16>, Obj<212, 0, 0>, Obj<213, 0, 8>, Obj<214, 0, 16>, Obj<215, 0, 0>, Obj<216, 0, 8>, Obj<217, 0, 16>, Obj<218, 0, 0>, Obj<219, 0, 8>, Obj<220, 0, 16>, Obj<221, 0, 0>, Obj<222, 0, 8>, Obj<223, 0, 16>, Obj<224, 0, 0>, Obj<225, 0, 8>, Obj<226, 0, 16>, Obj<227, 0, 0>, Obj<228, 0, 8>, Obj<229, 0, 16>, Obj<230, 0, 0>, Obj<231, 0, 8>, Obj<232, 0, 16>, Obj<233, 0, 0>, Obj<234, 0, 8>, Obj<235, 0, 16>, Obj<236, 0, 0>, Obj<237, 0, 8>, Obj<238, 0, 16>, Obj<239, 0, 0>, Obj<240, 0, 8>, Obj<241, 0, 16>, Obj<242, 0, 0>, Obj<243, 0, 8>, Obj<244, 0, 16>> L; typedef boost::make_variant_over<boost::mpl::vector45<Obj<200, 0, 0>, Obj<201, 0, 8>, Obj<202, 0, 16>, Obj<203, 0, 0>, Obj<204, 0, 8>, Obj<205, 0, 16>, Obj<206, 0, 0>, Obj<207, 0, 8>, Obj<208, 0, 16>, Obj<209, 0, 0>, Obj<210, 0, 8>, Obj<211, 0, 16>, Obj<212, 0, 0>, Obj<213, 0, 8>, Obj<214, 0, 16>, Obj<215, 0, 0>, Obj<216, 0, 8>, Obj<217, 0, 16>, Obj<218, 0, 0>, Obj<219, 0, 8>, Obj<220, 0, 16>, Obj<221, 0, 0>, Obj<222, 0, 8>, Obj<223, 0, 16>, Obj<224, 0, 0>, Obj<225, 0, 8>, Obj<226, 0, 16>, Obj<227, 0, 0>, Obj<228, 0, 8>, Obj<229, 0, 16>, Obj<230, 0, 0>, Obj<231, 0, 8>, Obj<232, 0, 16>, Obj<233, 0, 0>, Obj<234, 0, 8>, Obj<235, 0, 16>, Obj<236, 0, 0>, Obj<237, 0, 8>, Obj<238, 0, 16>, Obj<239, 0, 0>, Obj<240, 0, 8>, Obj<241, 0, 16>, Obj<242, 0, 0>, Obj<243, 0, 8>, Obj<244, 0, 16>> >::type V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgBig45"; } static void fail_into(V*, int) { vp_assume(false); } };
struct CfgBigT { typedef TL<Obj<300, ALLT, 0>, Obj<301, ALLT, 8>, Obj<302, ALLT, 16>, Obj<303, ALLT, 0>, Obj<304, ALLT, 8>, Obj<305, ALLT, 16>, Obj<306, ALLT, 0>, Obj<307, ALLT, 8>, Obj<308, ALLT, 16>, Obj<309, ALLT, 0>, Obj<310, ALLT, 8>, Obj<311, ALLT, 16>, Obj<312, ALLT, 0>, Obj<313, ALLT, 8>, Obj<314, ALLT, 16>, Obj<315, ALLT, 0>, Obj<316, ALLT, 8>, Obj<317, ALLT, 16>, Obj<318, ALLT, 0>, Obj<319, ALLT, 8>, Obj<320, ALLT, 16>, Obj<321, ALLT, 0>, Obj<322, ALLT, 8>, Obj<323, ALLT, 16>, Obj<324, ALLT, 0>> L; typedef boost::make_variant_over<boost::mpl::vector25<Obj<300, ALLT, 0>, Obj<301, ALLT, 8>, Obj<302, ALLT, 16>, Obj<303, ALLT, 0>, Obj<304, ALLT, 8>, Obj<305, ALLT, 16>, Obj<306, ALLT, 0>, Obj<307, ALLT, 8>, Obj<308, ALLT, 16>, Obj<309, ALLT, 0>, Obj<310, ALLT, 8>, Obj<311, ALLT, 16>, Obj<312, ALLT, 0>, Obj<313, ALLT, 8>, Obj<314, ALLT, 16>, Obj<315, ALLT, 0>, Obj<316, ALLT, 8>, Obj<317, ALLT, 16>, Obj<318, ALLT, 0>, Obj<319, ALLT, 8>, Obj<320, ALLT, 16>, Obj<321, ALLT, 0>, Obj<322, ALLT, 8>, Obj<323, ALLT, 16>, Obj<324, ALLT, 0>> >::type V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; static const char* name() { return "CfgBigT"; } typedef Obj<300, ALLT, 0> B0; typedef Obj<324, ALLT, 0> B1; static void fail_into(V* p, int i) { fail_assign<V, B0, B1>(p, i, 0); } };
}
#endif
