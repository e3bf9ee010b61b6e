// The special members and modifiers, over every configuration; VP_SEL selects the operations:
// 1 construction, 2 destruction, 4 assignment, 8 swap, 16 two-step histories, 32 larger two-step histories
#ifndef VP_SEL
#define VP_SEL 15
#endif
#include "ops.hpp"
#include "big.hpp"
#if VP_SEL & 1
#define E1(CFG) VP_ENTRY(default_ctor, CFG) VP_ENTRY(copy_ctor, CFG) VP_ENTRY(move_ctor, CFG) VP_ENTRY(value_ctor, CFG)
VP_ENTRY(default_ctor, CfgMoveOnly) VP_ENTRY(move_ctor, CfgMoveOnly) VP_ENTRY(value_ctor_m, CfgMoveOnly)
#else
#define E1(CFG)
#endif
#if VP_SEL & 2
#define E2(CFG) VP_ENTRY(dtor, CFG)
VP_ENTRY(dtor, CfgMoveOnly)
#else
#define E2(CFG)
#endif
#if VP_SEL & 4
#define E4(CFG) VP_ENTRY(copy_assign, CFG) VP_ENTRY(move_assign, CFG) VP_ENTRY(self_assign, CFG) VP_ENTRY(value_assign, CFG) VP_ENTRY(alias_assign, CFG)
VP_ENTRY(move_assign, CfgMoveOnly) VP_ENTRY(value_assign_m, CfgMoveOnly) VP_ENTRY(self_move_assign, CfgMoveOnly)
#else
#define E4(CFG)
#endif
#if VP_SEL & 8
#define E8(CFG) VP_ENTRY(swap, CFG) VP_ENTRY(self_swap, CFG)
VP_ENTRY(swap, CfgMoveOnly) VP_ENTRY(self_swap, CfgMoveOnly)
#else
#define E8(CFG)
#endif
#define ALL(CFG) E1(CFG) E2(CFG) E4(CFG) E8(CFG)
ALL(CfgBackup) ALL(CfgFallback) ALL(CfgBlank) ALL(CfgRec) ALL(CfgPod)
#if VP_SET >= 1
ALL(CfgBlank0) ALL(CfgNothrow) ALL(CfgAlign) ALL(CfgAlignBackup) ALL(CfgSeq) ALL(CfgTwo) ALL(CfgOne) ALL(CfgNoAlloc) ALL(CfgSmall) ALL(CfgInt) ALL(CfgTiny) ALL(CfgWide) ALL(CfgHostile) ALL(CfgTriv) ALL(CfgFloat) E8(CfgSwap)
#endif
#if VP_SEL & 16
VP_HISTORY(CfgTwo, 2)
VP_HISTORY(CfgHBlank, 3)
#endif
#if VP_SEL & 32
VP_HISTORY(CfgTwo, 3)
VP_HISTORY(CfgHBlank, 7)
VP_HISTORY(CfgHRec, 3)
#endif
