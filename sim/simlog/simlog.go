// Package simlog replaces log: messages are formatted and dropped, and the
// fatal functions end the simulated program, not the simulator.
package simlog

import (
	"fmt"
	"io"
	"log"

	"github.com/Harvey-OS/ninep/sim/simrt"
)

func out(s string) {
	if c := simrt.Cur(); c != nil {
		c.Count("log-lines")
	}
}

func Printf(f string, a ...any)    { out(fmt.Sprintf(f, a...)) }
func Print(a ...any)               { out(fmt.Sprint(a...)) }
func Println(a ...any)             { out(fmt.Sprintln(a...)) }
func Output(d int, s string) error { out(s); return nil }

func Fatalf(f string, a ...any) { simrt.ProcessExit("log.Fatalf: " + fmt.Sprintf(f, a...)) }
func Fatal(a ...any)            { simrt.ProcessExit("log.Fatal: " + fmt.Sprint(a...)) }
func Fatalln(a ...any)          { simrt.ProcessExit("log.Fatalln: " + fmt.Sprintln(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }

type Logger struct{ l *log.Logger }

func New(w io.Writer, prefix string, flag int) *Logger {
	return &Logger{log.New(w, prefix, 0)}
}
func Default() *Logger { return &Logger{log.New(io.Discard, "", 0)} }

func (l *Logger) Printf(f string, a ...any) { out(fmt.Sprintf(f, a...)) }
func (l *Logger) Print(a ...any)            { out(fmt.Sprint(a...)) }
func (l *Logger) Println(a ...any)          { out(fmt.Sprintln(a...)) }
func (l *Logger) Fatalf(f string, a ...any) { Fatalf(f, a...) }
func (l *Logger) Fatal(a ...any)            { Fatal(a...) }
func (l *Logger) Fatalln(a ...any)          { Fatalln(a...) }
func (l *Logger) Panicf(f string, a ...any) { Panicf(f, a...) }
func (l *Logger) Panic(a ...any)            { Panic(a...) }
func (l *Logger) SetPrefix(string)          {}
func (l *Logger) SetFlags(int)              {}
func (l *Logger) SetOutput(io.Writer)       {}
func (l *Logger) Writer() io.Writer         { return io.Discard }

func SetOutput(io.Writer) {}
func SetFlags(int)        {}
func SetPrefix(string)    {}
func Flags() int          { return 0 }
func Prefix() string      { return "" }
func Writer() io.Writer   { return io.Discard }

func (l *Logger) Panicln(a ...any)             { Panicln(a...) }
func (l *Logger) Flags() int                   { return 0 }
func (l *Logger) Prefix() string               { return "" }
func (l *Logger) Output(d int, s string) error { out(s); return nil }
