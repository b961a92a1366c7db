#pragma once
namespace log4cpp { namespace Priority { typedef int Value; enum PriorityLevel { EMERG=0, FATAL=0, ALERT=100, CRIT=200, ERROR=300, WARN=400, NOTICE=500, INFO=600, DEBUG=700, NOTSET=800 }; } }
