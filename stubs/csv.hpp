// Stand-in for csv-parser, which is not installed: only declarations the library's headers name; no check decides CSV parsing or quoting.
#pragma once
#include <fstream>
#include <istream>
#include <string>
#include <string_view>
#include <vector>
namespace csv {
struct CSVFormat { CSVFormat &delimiter(char) { return *this; } CSVFormat &delimiter(const std::vector<char> &) { return *this; } CSVFormat &quote(char) { return *this; } CSVFormat &quote(bool) { return *this; } CSVFormat &no_header() { return *this; } CSVFormat &header_row(int) { return *this; } CSVFormat &column_names(const std::vector<std::string> &) { return *this; } };
struct CSVField { std::string v; template<typename T = std::string> T get() const { if constexpr (std::is_same_v<T, std::string>) return v; else return T{}; } bool is_null() const { return v.empty(); } };
struct CSVRow { std::vector<std::string> f; CSVField operator[](std::size_t i) const { return {f.at(i)}; } CSVField operator[](const std::string &) const { return {}; } std::size_t size() const { return f.size(); } bool empty() const { return f.empty(); } std::vector<std::string> get_col_names() const { return {}; } };
template<typename Out, char Delim, char Quote, bool Flush> struct DelimWriter { explicit DelimWriter(Out &o) : out_{o} {} template<typename T> DelimWriter &operator<<(const T &row) { for (const auto &x : row) { out_ << x << Delim; } out_ << '\n'; return *this; } Out &out_; };
}
