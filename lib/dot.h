// DOT grammar of our own
#pragma once
#include <map>
#include <string>
#include <vector>
struct Parse {                              // DOT grammar (graph, statements, attributes); identifiers, numbers, strings, comments
    std::string s; size_t i = 0; std::string err;
    struct Node { std::string id; std::map<std::string, std::string> attr; };
    std::vector<Node> nodes; std::vector<std::pair<std::string, std::string>> edges; std::vector<int> order; // 0 node, 1 edge
    void ws() {
        while (i < s.size()) {
            if (isspace((unsigned char)s[i])) ++i;
            else if (s.compare(i, 2, "//") == 0 || (s[i] == '#' && (i == 0 || s[i - 1] == '\n'))) { while (i < s.size() && s[i] != '\n') ++i; }
            else if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i + 2); if (e == std::string::npos) { err = "open comment"; i = s.size(); } else i = e + 2; }
            else break;
        }
    }
    bool lit(const char* t) { ws(); if (s.compare(i, strlen(t), t) == 0) { i += strlen(t); return true; } return false; }
    static size_t strlen(const char* t) { return std::string(t).size(); }
    bool id(std::string& o) {
        ws(); o.clear(); if (i >= s.size()) return false;
        if (s[i] == '"') { for (++i; i < s.size() && s[i] != '"'; ++i) { if (s[i] == '\\' && i + 1 < s.size() && s[i + 1] == '"') ++i; o += s[i]; } if (i >= s.size()) { err = "open string"; return false; } ++i; return true; }
        if (isalpha((unsigned char)s[i]) || s[i] == '_' || (unsigned char)s[i] >= 128) { while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || (unsigned char)s[i] >= 128)) o += s[i++]; return true; }
        size_t b = i; if (s[i] == '-') ++i; size_t d = i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && isdigit((unsigned char)s[i])) ++i; }
        if (i == d) { i = b; return false; } o = s.substr(b, i - b);
        if (i < s.size() && (isalpha((unsigned char)s[i]) || s[i] == '_')) { err = "number followed by letters"; return false; }
        return true;
    }
    bool attrs(std::map<std::string, std::string>& a) {
        while (lit("[")) { while (!lit("]")) { std::string k, v; if (!id(k)) { err = "attribute expected"; return false; } if (!lit("=")) { err = "= expected"; return false; } if (!id(v)) { err = "attribute value expected"; return false; } a[k] = v; if (!lit(",")) lit(";"); } }
        return true;
    }
    bool run() {
        std::string t; if (!id(t)) { err = "graph expected"; return false; }
        if (t == "strict") { err = "strict graph"; return false; }
        if (t != "graph") { err = "not an undirected graph: " + t; return false; }
        ws(); if (i < s.size() && s[i] != '{') id(t);
        if (!lit("{")) { err = "{ expected"; return false; }
        while (!lit("}")) {
            std::string a; if (!id(a)) { if (err.empty()) err = "statement expected"; return false; }
            if (lit("=")) { std::string v; if (!id(v)) { err = "value expected"; return false; } }
            else if (lit("--")) { std::string b; if (!id(b)) { err = "node expected after --"; return false; } edges.push_back({a, b}); order.push_back(1); while (lit("--")) { a = b; if (!id(b)) { err = "node expected"; return false; } edges.push_back({a, b}); } std::map<std::string, std::string> at; if (!attrs(at)) return false; }
            else { Node n; n.id = a; if (!attrs(n.attr)) return false; if (a != "graph" && a != "node" && a != "edge") { nodes.push_back(n); order.push_back(0); } }
            lit(";"); if (i >= s.size()) { err = "} missing"; return false; }
        }
        ws(); if (i != s.size()) { err = "text behind the graph"; return false; }
        return err.empty();
    }
};
