#include "support.h"
#include "ParameterObject.h"

namespace probe {
using namespace eipScanner;
using namespace eipScanner::cip;

void par_out(const ParameterObject& p) {
	eip_out("class", p.getClassId());
	eip_out("instance", p.getInstanceId());
	eip_out("parameter", p.getParameter());
	eip_out("full", p.hasFullAttributes());
	eip_out("scalable", p.isScalable());
	eip_out("readOnly", p.isReadOnly());
	eip_out("type", static_cast<uint8_t>(p.getType()));
	eip_out("name", p.getName());
	eip_out("units", p.getUnits());
	eip_out("help", p.getHelp());
	eip_out("multiplier", p.getScalingMultiplier());
	eip_out("divisor", p.getScalingDivisor());
	eip_out("base", p.getScalingBase());
	eip_out("offset", p.getScalingOffset());
	eip_out("precision", p.getPrecision());
}
template <class T> void par_typed(const ParameterObject& p) {
	try { eip_out("actual", p.getActualValue<T>()); } catch (const std::runtime_error&) { eip_mark("actual refused"); }
	try { eip_out("min", p.getMinValue<T>()); } catch (const std::runtime_error&) { eip_mark("min refused"); }
	try { eip_out("max", p.getMaxValue<T>()); } catch (const std::runtime_error&) { eip_mark("max refused"); }
	try { eip_out("default", p.getDefaultValue<T>()); } catch (const std::runtime_error&) { eip_mark("default refused"); }
}
ParameterObject make(bool full) {
	auto si = std::make_shared<FakeSession>();
	return ParameterObject(eip_u16("id"), full, si, std::make_shared<FakeRouter>());
}
void par_read() {
	bool full = eip_choose(2);
	eip_out("asked", full);
	auto p = make(full);
	par_out(p);
	par_typed<uint32_t>(p);
}
template <class T> void typed() { par_typed<T>(make(true)); }
void par_u8() { typed<uint8_t>(); }
void par_u16() { typed<uint16_t>(); }
void par_u32() { typed<uint32_t>(); }
void par_u64() { typed<uint64_t>(); }
void par_i8() { typed<int8_t>(); }
void par_i16() { typed<int16_t>(); }
void par_i32() { typed<int32_t>(); }
void par_i64() { typed<int64_t>(); }
void par_f32() { typed<float>(); }
void par_f64() { typed<double>(); }
void par_update() {
	auto si = std::make_shared<FakeSession>();
	bool full = eip_choose(2);
	eip_out("asked", full);
	ParameterObject p(eip_u16("id"), full, si, std::make_shared<FakeRouter>());
	eip_mark("update");
	bool ok = true;
	try { p.updateValue(si); } catch (const std::runtime_error&) { ok = false; }
	eip_out("updated", ok);
	par_out(p);
	par_typed<uint32_t>(p);
}
void par_local() {
	ParameterObject p(eip_u16("id"), eip_choose(2), 4);
	par_out(p);
	par_typed<uint32_t>(p);
}
void par_set() {
	ParameterObject p(eip_u16("id"), true, 4);
	p.setScalable(eip_bool("s"));
	p.setReadOnly(eip_bool("r"));
	p.setType(static_cast<CipDataTypes>(eip_u8("t")));
	p.setName(eip_string("n"));
	p.setUnits(eip_string("u"));
	p.setHelp(eip_string("h"));
	p.setScalingMultiplier(eip_u16("m"));
	p.setScalingDivisor(eip_u16("d"));
	p.setScalingBase(eip_u16("b"));
	p.setScalingOffset(eip_i16("o"));
	p.setPrecision(eip_u8("p"));
	par_out(p);
}

// ---- scaling
void scaling(ParameterObject& p) {
	p.setScalable(eip_choose(2));
	eip_out("scaled", p.isScalable());
	p.setScalingMultiplier(eip_u16("m"));
	p.setScalingDivisor(eip_u16("d"));
	p.setScalingBase(eip_u16("b"));
	p.setScalingOffset(eip_i16("o"));
	int n = eip_choose(4);
	eip_out("precisionCase", n);
	p.setPrecision(n == 3 ? eip_u8("p") : n);
}
void eng_direct() {
	ParameterObject p(eip_u16("id"), true, 4);
	scaling(p);
	eip_out("eng", p.actualToEngValue(eip_f64("x")));
	eip_out("actual", p.engToActualValue(eip_f64("x")));
}
template <class T> void eng() {
	auto p = make(true);
	scaling(p);
	eip_out("eng", p.getEngValue<T>());
	eip_out("engMin", p.getEngMinValue<T>());
	eip_out("engMax", p.getEngMaxValue<T>());
	eip_out("engDefault", p.getEngDefaultValue<T>());
	int s = eip_choose(3);
	eip_out("setter", s);
	if (s == 0) p.setEngMinValue<T>(eip_f64("x"));
	if (s == 1) p.setEngMaxValue<T>(eip_f64("x"));
	if (s == 2) p.setEngDefaultValue<T>(eip_f64("x"));
	eip_out("actual", p.getActualValue<T>());
	eip_out("min", p.getMinValue<T>());
	eip_out("max", p.getMaxValue<T>());
	eip_out("default", p.getDefaultValue<T>());
}
void eng_u8() { eng<uint8_t>(); }
void eng_u16() { eng<uint16_t>(); }
void eng_u32() { eng<uint32_t>(); }
void eng_i16() { eng<int16_t>(); }
void eng_i32() { eng<int32_t>(); }
void eng_f32() { eng<float>(); }
void eng_f64() { eng<double>(); }
}
