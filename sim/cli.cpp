// World: a user at a noisy terminal, and a command line interface.
// Real: cli.c.
// Simulated: the user's keystrokes, line noise, the commands, the terminal.
// Reference: a line editor over a plain character vector.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/cli.h"
}
using namespace dst;

namespace {

constexpr uint32_t C18 = P(18);

struct Sim;
struct Cookie { uint32_t magic; Sim * sim; };   // the handlers' user data

struct Sim {
    Cookie cookie = {1, this}, print_cookie = {2, this};
    embc_cli_t * cli = 0;
    std::string out, want;
    std::vector<char> line;       // as edited so far
    char last = 0;
    bool args_mode = false, line_mode = false, printing = true, nul = false;
    bool executing = false;
    int executed = 0, expected_exec = 0;
    std::string content;          // what must be executed now
    std::vector<std::string> argv;
    bool armed = false;
    int rc = 0;
    int echo = 0, verbose = 0;
    char echo_char = '*';
    std::string prompt;
    int lines = 0;
    bool too_long = false;

    void compact(std::string & r, bool & too_long);
    void expect_line();
    void split();
    void parse(embc_cli_t * parser, std::string const & w);
    void key(char c);
    void type(std::string const & s) { for (char c : s) { key(c); } }
};

// The one whose character is being processed in this task.
Sim & current() { return *(Sim *) task_local(); }

void after_execute(Sim & s) {
    if (chance(AUX, 1, 16)) {   // the command configures the interface
        s.echo = (int) draw(AUX, 3);
        s.echo_char = s.echo == 2 ? '.' : 0;
        embc_cli_set_echo(s.cli, (enum embc_cli_echo_mode_e) s.echo, s.echo_char);
        probe("command changes the echo mode");
    }
    if (chance(AUX, 1, 16)) {
        s.verbose = (int) draw(AUX, 2);
        embc_cli_set_verbose(s.cli, (enum embc_cli_verbose_mode_e) s.verbose);
        probe("command changes the verbosity");
    }
}

int exec_line(void * cookie, char const * cmd) {
    step();
    Sim & s = current();
    ev("execute", (int64_t) strlen(cmd));
    if (cookie != &s.cookie) { violate(C18, "cookie", "execute_line gets another cookie"); }
    if (s.nul) { return s.rc; }
    if (!s.armed || s.args_mode) { violate(C18, "execute", "\"%s\" is executed unexpectedly", cmd); return 0; }
    s.armed = false;
    ++s.executed;
    if (s.content != cmd) { violate(C18, "content", "\"%s\" is executed, the line is \"%s\"", cmd, s.content.c_str()); }
    after_execute(s);
    return s.rc;
}

int exec_args(void * cookie, int argc, char * argv[]) {
    step();
    Sim & s = current();
    ev("execute_args", argc);
    if (cookie != &s.cookie) { violate(C18, "cookie", "execute_args gets another cookie"); }
    if (s.nul) { return s.rc; }
    if (!s.armed || !s.args_mode) { violate(C18, "execute", "\"%s\" is executed unexpectedly", argv[0]); return 0; }
    s.armed = false;
    ++s.executed;
    if (argc != (int) s.argv.size()) { violate(C18, "args", "%d arguments, expected %zu (\"%s\")", argc, s.argv.size(), s.content.c_str()); return s.rc; }
    for (int i = 0; i < argc; ++i) {
        if (s.argv[(size_t) i] != argv[i]) { violate(C18, "args", "argument %d is \"%s\", expected \"%s\"", i, argv[i], s.argv[(size_t) i].c_str()); }
        if (chance(AUX, 1, 8)) { memset(argv[i], 'X', strlen(argv[i])); }   // the arguments are the command's to modify
    }
    after_execute(s);
    return s.rc;
}

void print(void * cookie, char const * str) {
    step();
    Sim & s = current();
    if (cookie != &s.print_cookie) { violate(C18, "cookie", "print gets another cookie"); }
    s.out += str;
}

// Comments removed, white space reduced.
void Sim::compact(std::string & r, bool & too_long) {
    too_long = false;
    bool white = true;
    size_t i;
    for (i = 0; i < line.size(); ++i) {
        if (i >= EMBC_CLI_LINE_LENGTH) { too_long = true; return; }
        char c = line[i];
        if (c == '#' || c == '@' || c == '%') { break; }
        bool w = c == ' ' || c == '\t';
        if (w) { if (!white) { r += ' '; } }
        else { r += c; }
        white = w;
    }
    while (r.size() && r.back() == ' ') { r.pop_back(); }
    if (r.size() >= EMBC_CLI_LINE_LENGTH) { too_long = true; }
}

// The arguments of the content.
void Sim::split() {
    std::string a;
    for (size_t i = 0; i <= content.size(); ++i) {
        char c = i < content.size() ? content[i] : ' ';
        if (c == ' ' || c == ',' || c == '\t') { if (a.size()) { argv.push_back(a); a.clear(); } }
        else { a += c; }
    }
}

// The application's own call of the library's parser.
void Sim::parse(embc_cli_t * parser, std::string const & w) {
    probe("line parsed by the application");
    ev("parse", (int64_t) w.size());
    task_local() = this;
    content = w;
    argv.clear();
    split();
    out.clear();
    armed = parser->execute_args && argv.size() > 0 && argv.size() <= EMBC_CLI_MAX_ARGS;
    bool was_armed = armed;
    expected_exec += armed;
    rc = pick<int>(APP, {EMBC_CLI_SUCCESS, EMBC_CLI_ERROR, -5});
    std::unique_ptr<char[]> copy(new char[w.size() + 1]);
    memcpy(copy.get(), w.c_str(), w.size() + 1);
    bool m = args_mode;
    args_mode = true;
    int r = embc_cli_line_parser(parser, copy.get());
    args_mode = m;
    int expect = was_armed ? rc : argv.empty() ? EMBC_CLI_SUCCESS : EMBC_CLI_ERROR_PARAMETER_VALUE;
    if (armed) { violate(C18, "lost", "the line \"%s\" is not executed", w.c_str()); armed = false; }
    if (r != expect) { violate(C18, "parse", "the parser returns %d, expected %d", r, expect); }
    if (w != copy.get()) { violate(C18, "parse", "the parser modifies the line"); }
    if (out.size()) { violate(C18, "output", "the parser prints \"%s\"", out.c_str()); }
}

// The line is complete: what must happen while it is processed.
void Sim::expect_line() {
    ++lines;
    content.clear();
    compact(content, too_long);
    armed = false;
    argv.clear();
    if (too_long) { probe("line too long"); }
    if (!too_long && content.size()) {
        if (args_mode) {
            split();
            armed = argv.size() > 0 && argv.size() <= EMBC_CLI_MAX_ARGS;
            if (argv.size() > EMBC_CLI_MAX_ARGS) { probe("too many arguments"); }
        } else {
            armed = line_mode;
        }
        expected_exec += armed;
    }
    rc = pick<int>(APP, {EMBC_CLI_SUCCESS, EMBC_CLI_SUCCESS, EMBC_CLI_SUCCESS_PROMPT_ONLY, EMBC_CLI_ERROR, EMBC_CLI_ERROR_PARAMETER_COUNT, 77, -5});
}

void Sim::key(char c) {
    step();
    ev("key", (uint8_t) c);
    out.clear();
    want.clear();
    bool done = false;
    if (c == '\b' || c == 127) {
        if (line.size()) { line.pop_back(); if (echo) { want += "\b \b"; } }
    } else if (c == '\r' || (c == '\n' && last != '\r')) {
        done = true;
        expect_line();
        want += "\n";
    } else if (c == '\n') {
        // the second half of CR LF
    } else {
        line.push_back(c);
        if (echo == EMBC_CLI_ECHO_ON) { want += c; }
        else if (echo == EMBC_CLI_ECHO_USER_CHAR) { want += echo_char; }
    }
    bool was_armed = armed;
    task_local() = this;
    embc_cli_insert_char(cli, c);
    last = c;
    if (nul) { return; }
    if (done) {
        if (armed) { violate(C18, "lost", "the line \"%s\" is not executed", content.c_str()); armed = false; }
        if (too_long) { want += "Maximum command line length reached\n"; }
        else if (content.size()) {
            int r = EMBC_CLI_SUCCESS;
            if (was_armed) { r = rc; }
            else if (args_mode && argv.size() > EMBC_CLI_MAX_ARGS) { r = EMBC_CLI_ERROR_PARAMETER_VALUE; }
            if (r != EMBC_CLI_SUCCESS_PROMPT_ONLY) {
                if (verbose == EMBC_CLI_VERBOSE_FULL) { want += content + "\n"; }
                want += r == EMBC_CLI_SUCCESS ? "<ok>\n" : "<error>\n";
            }
        }
        want += prompt;
        line.clear();
        nontrivial();
    }
    if (!printing) { want.clear(); }
    if (out != want) { violate(C18, "output", "after key %d the output is \"%s\", expected \"%s\"", (int) (uint8_t) c, out.c_str(), want.c_str()); }
    cover(mix2(std::min<size_t>(line.size(), 80), (uint64_t) (c == '\r') * 2 + (c == '\n') + 4 * (uint64_t) echo + 16 * args_mode));
}

char const CHARS[] = "abcXYZ019 _-./=\"'";

void one() {
    std::unique_ptr<Sim> sp(new Sim());
    Sim & s = *sp;
    task_local() = &s;
    s.cli = (embc_cli_t *) heap_alloc(sizeof(embc_cli_t));
    memset(s.cli, 0, sizeof(*s.cli));
    int mode = (int) draw(CFG, 8);
    s.args_mode = mode >= 4;
    s.line_mode = mode != 3;
    s.printing = !chance(CFG, 1, 8);
    s.nul = chance(CFG, 1, 32);
    s.echo = (int) draw(CFG, 3);
    s.verbose = (int) draw(CFG, 2);
    s.prompt = pick<char const *>(CFG, {"> ", "", "123456789012345"});
    strcpy(s.cli->prompt, s.prompt.c_str());
    s.cli->response_success = "<ok>\n";
    s.cli->response_error = "<error>\n";
    s.cli->execute_line = s.line_mode ? exec_line : 0;
    s.cli->execute_args = s.args_mode ? exec_args : 0;
    s.cli->execute_cookie = &s.cookie;
    embc_cli_t * parser = s.cli;
    if (mode == 7) {   // the line handler is the library's parser, which hands the arguments to another instance
        probe("parser as line handler");
        parser = (embc_cli_t *) heap_alloc(sizeof(embc_cli_t));
        memset(parser, 0, sizeof(*parser));
        parser->execute_args = exec_args;
        parser->execute_cookie = &s.cookie;
        s.cli->execute_line = embc_cli_line_parser;
        s.cli->execute_args = 0;
        s.cli->execute_cookie = parser;
    }
    s.cli->print = s.printing ? print : 0;
    s.cli->print_cookie = &s.print_cookie;
    embc_cli_set_echo(s.cli, (enum embc_cli_echo_mode_e) s.echo, s.echo_char);
    embc_cli_set_verbose(s.cli, (enum embc_cli_verbose_mode_e) s.verbose);
    embc_cli_initialize(s.cli);
    if (s.out != (s.printing ? s.prompt : "")) { violate(C18, "output", "initialize prints \"%s\"", s.out.c_str()); }
    int ops = 1 + (int) draw(CFG, 60);
    int noise = (int) draw(CFG, 4);
    for (int i = 0; i < ops; ++i) {
        step();
        switch (draw(APP, 14)) {
            case 0: case 1: case 2: {   // a word
                int n = 1 + (int) draw(APP, 8);
                std::string w;
                for (int k = 0; k < n; ++k) { w += CHARS[draw(DATA, sizeof(CHARS) - 1)]; }
                s.type(w);
                break;
            }
            case 3: s.type(pick<char const *>(APP, {" ", "  ", "\t", " \t ", ",", ", ,"})); break;
            case 4: case 5: s.type(pick<char const *>(APP, {"\r", "\n", "\r\n", "\n\r", "\r\r", "\r\n\r\n", "\n\n"})); break;
            case 6: { int n = 1 + (int) draw(APP, 6); for (int k = 0; k < n; ++k) { s.key(draw(APP, 2) ? '\b' : 127); } break; }
            case 7: s.type(pick<char const *>(APP, {"#", "@", "%", " # x", "a%b"})); break;
            case 8: {   // towards the length limit
                int to = pick<int>(APP, {60, 62, 63, 64, 65, 66, 67, 70, 130, 300});
                char c = pick<char>(APP, {'q', 'q', ' ', 'q'});
                for (int k = 0; (int) s.line.size() < to && k < 400; ++k) { s.key(chance(DATA, 1, 16) ? ' ' : c); }
                if ((int) s.line.size() > 64 && chance(APP, 1, 2)) {
                    probe("edited back below the limit");
                    int back = (int) s.line.size() - pick<int>(APP, {63, 64, 65, 30, 60, 0});
                    for (int k = 0; k < back; ++k) { s.key('\b'); }
                }
                break;
            }
            case 9: {   // many arguments
                int n = 12 + (int) draw(APP, 8);
                for (int k = 0; k < n; ++k) { s.key((char) ('a' + k)); s.type(draw(APP, 4) ? " " : ","); }
                break;
            }
            case 10: {
                if (chance(APP, 1, 3)) {
                    ev("initialize");
                    fault("reinitialized in the middle of a line");
                    s.out.clear();
                    embc_cli_initialize(s.cli);
                    if (s.out != (s.printing ? s.prompt : "")) { violate(C18, "output", "initialize prints \"%s\"", s.out.c_str()); }
                    s.line.clear();
                }
                break;
            }
            case 11: {
                if (!s.nul && chance(APP, 1, 3)) {   // the application parses a line itself
                    std::string w;
                    int n = (int) draw(APP, chance(APP, 1, 6) ? EMBC_CLI_LINE_LENGTH + 1 : 24);
                    for (int k = 0; k < n; ++k) { w += chance(DATA, 1, 3) ? " ,\t"[draw(DATA, 3)] : CHARS[draw(DATA, sizeof(CHARS) - 1)]; }
                    s.parse(parser, w);
                } else if (chance(APP, 1, 4)) {
                    s.echo = (int) draw(APP, 3);
                    s.echo_char = s.echo == 2 ? 'x' : 0;
                    embc_cli_set_echo(s.cli, (enum embc_cli_echo_mode_e) s.echo, s.echo_char);
                }
                break;
            }
            default: {   // line noise
                if (noise) {
                    int n = 1 + (int) draw(NET, 6);
                    for (int k = 0; k < n; ++k) {
                        char c = (char) draw(NET, 256);
                        if (c == 0 && !s.nul) { c = 1; }
                        fault("noise character");
                        s.key(c);
                    }
                }
                break;
            }
        }
    }
    s.type("\nlast\r\n");
    if (!s.nul && s.executed != s.expected_exec) { violate(C18, "count", "%d lines executed, expected %d", s.executed, s.expected_exec); }
    heap_free(s.cli);
    if (parser != s.cli) { heap_free(parser); }
}

// In some runs two users are at two terminals.
void run_world() {
    set_step_limit(200000);
    if (chance(CFG, 1, 6)) { probe("two terminals"); tasks({one, one}); }
    else { one(); }
}

}  // namespace

World const dst::world = {"cli", {18}, run_world, {}};
