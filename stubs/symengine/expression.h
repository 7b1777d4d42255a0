#pragma once
// Environment stub: SymEngine is not installed. An Expression keeps its source string.
#include <iostream>
#include <string>
namespace SymEngine
{
class Expression
{
    std::string m_s;

public:
    Expression() = default;
    Expression(const std::string &s) : m_s(s) {}
    friend std::ostream &operator<<(std::ostream &os, const Expression &e) { return os << e.m_s; }
    const std::string &str() const { return m_s; }
};
} // namespace SymEngine
