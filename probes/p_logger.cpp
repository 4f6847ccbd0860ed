#include "probe.h"
#include "utils/Logger.h"

namespace probe {
using namespace eipScanner::utils;

struct Recorder : LogAppenderIf {
	void print(LogLevel level, const std::string& msg) override {
		eip_out("level", static_cast<int>(level));
		eip_out("text", msg);
	}
};
struct Thrower : LogAppenderIf {
	void print(LogLevel level, const std::string& msg) override {
		eip_mark("asked");
		if (eip_choose(2)) throw std::runtime_error("appender");
		throw 5;
	}
};
void log_text() {
	Logger::setAppender(std::make_unique<Recorder>());
	int g = eip_choose(6), l = 1 + eip_choose(5);
	eip_out("global", g);
	eip_out("message", l);
	Logger::setLogLevel(static_cast<LogLevel>(g));
	{
		Logger(static_cast<LogLevel>(l)) << eip_string("a");
	}
	eip_mark("one");
	{
		Logger m(static_cast<LogLevel>(l));
		m << eip_string("a");
		m << std::string("-") << eip_string("b") << "z";
	}
	eip_mark("two");
	{
		Logger(static_cast<LogLevel>(l));
	}
	eip_mark("three");
}
// the levels in force when the message is complete decide; a replaced appender gets the next message
void log_replaced() {
	Logger::setLogLevel(LogLevel::TRACE);
	Logger::setAppender(std::make_unique<Thrower>());
	Logger::setAppender(std::make_unique<Recorder>());
	{ Logger(LogLevel::INFO) << eip_string("a"); }
	eip_mark("one");
	Logger::setLogLevel(LogLevel::ERROR);
	{ Logger(LogLevel::WARNING) << eip_string("b"); }
	eip_mark("two");
	Logger::setLogLevel(LogLevel::WARNING);
	{ Logger(LogLevel::WARNING) << eip_string("b"); }
	eip_mark("three");
}
void log_console() {
	int l = 1 + eip_choose(5);
	eip_out("message", l);
	ConsoleAppender().print(static_cast<LogLevel>(l), eip_string("a"));
}
void log_default() {
	int l = 1 + eip_choose(5);
	Logger::setLogLevel(LogLevel::TRACE);
	{ Logger(static_cast<LogLevel>(l)) << eip_string("a"); }
	eip_mark("done");
}
void log_off_level() {
	Logger::setAppender(std::make_unique<Recorder>());
	Logger::setLogLevel(static_cast<LogLevel>(eip_choose(6)));
	{ ConsoleAppender().print(static_cast<LogLevel>(0), eip_string("a")); }
}
void log_no_appender() {
	Logger::setLogLevel(static_cast<LogLevel>(eip_choose(6)));
	Logger::setAppender(nullptr);
	{ Logger(static_cast<LogLevel>(1 + eip_choose(5))) << eip_string("a"); }
	eip_mark("alive");
}
void log_throwing() {
	int g = eip_choose(6);
	Logger::setLogLevel(static_cast<LogLevel>(g));
	Logger::setAppender(std::make_unique<Thrower>());
	{ Logger(static_cast<LogLevel>(1 + eip_choose(5))) << eip_string("a"); }
	eip_mark("alive");
}
// a message destroyed while another exception is on its way
void log_unwinding() {
	Logger::setLogLevel(LogLevel::TRACE);
	Logger::setAppender(std::make_unique<Thrower>());
	try {
		Logger m(LogLevel::ERROR);
		m << eip_string("a");
		throw std::runtime_error("user");
	} catch (const std::runtime_error&) {
		eip_mark("alive");
	}
}
}
