// The declarations of the extension's SQL script, as CREATE EXTENSION would read them.
#pragma once
#include <map>
#include <string>
#include <vector>
struct SqlArg { std::string mode, name, type; };
struct SqlFn { std::string name, lib, symbol, returns, lang; bool set = false, strict = false, odd = false; std::vector<SqlArg> args; };
// every CREATE FUNCTION of the text; odd: something in it is not understood
std::map<std::string, SqlFn> sqlFunctions(const std::string &text, std::string &bad);
