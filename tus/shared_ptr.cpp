#include "mg/box/SharedPtr.h"
#include <cstddef>
class Obj
{
	SHARED_PTR_API(Obj, myRef)
public:
	~Obj();
	long myData;
	mg::box::RefCount myRef;
};
class Kid : public Obj
{
	SHARED_PTR_RENEW_API(Kid)
public:
	Kid();
	~Kid();
	long myMore;
};
template class mg::box::SharedPtrIntrusive<Obj>;
template class mg::box::SharedPtrIntrusive<Kid>;
using OP = mg::box::SharedPtrIntrusive<Obj>;
using KP = mg::box::SharedPtrIntrusive<Kid>;
extern "C" {
void drv_child_copy(OP* aDst, KP* aSrc) { new (aDst) OP(*aSrc); }
void drv_child_move(OP* aDst, KP* aSrc) { new (aDst) OP(std::move(*aSrc)); }
void drv_child_assign(OP* aDst, KP* aSrc) { *aDst = *aSrc; }
void drv_child_assign_move(OP* aDst, KP* aSrc) { *aDst = std::move(*aSrc); }
bool drv_eq(OP* a, OP* b) { return *a == *b; }
bool drv_ne(OP* a, OP* b) { return *a != *b; }
bool drv_eq_kid(OP* a, KP* b) { return *a == *b; }
bool drv_ne_kid(OP* a, KP* b) { return *a != *b; }
bool drv_eq_raw(OP* a, Obj* b) { return *a == b; }
bool drv_ne_raw(OP* a, Obj* b) { return *a != b; }
bool drv_raw_eq(OP* a, Obj* b) { return mg::box::operator==<Obj, Obj>(b, *a); }
bool drv_raw_ne(OP* a, Obj* b) { return mg::box::operator!=<Obj, Obj>(b, *a); }
bool drv_eq_null(OP* a) { return *a == nullptr; }
bool drv_ne_null(OP* a) { return *a != nullptr; }
void drv_ref(Obj* a) { a->PrivRef(); }
void drv_unref(Obj* a) { a->PrivUnref(); }
void drv_rc_def(mg::box::RefCount* a) { new (a) mg::box::RefCount(); }
void drv_rc_num(mg::box::RefCount* a, uint32_t n) { new (a) mg::box::RefCount(n); }
void drv_rc_inc(mg::box::RefCount* a) { a->Inc(); }
bool drv_rc_dec(mg::box::RefCount* a) { return a->Dec(); }
uint32_t drv_rc_get(mg::box::RefCount* a) { return a->Get(); }
void drv_rc_del(mg::box::RefCount* a) { a->~RefCount(); }
#define K(name, val) extern const unsigned long name; const unsigned long name = (val);
K(off_obj, offsetof(OP, myObject))
K(off_ref, offsetof(Obj, myRef))
K(off_count, offsetof(mg::box::RefCount, myCount))
}
