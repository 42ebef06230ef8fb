// Package readline stands for github.com/ergochat/readline when sessions are
// recorded: it reads lines from standard input as they are, and writes the
// prompt where it reads, so that what is shown can be told apart line by line.
package readline

import (
	"bufio"
	"errors"
	"io"
	"os"
	"strings"
)

var ErrInterrupt = errors.New("Interrupt")

type Config struct {
	Prompt                 string
	HistoryFile            string
	HistoryLimit           int
	HistorySearchFold      bool
	InterruptPrompt        string
	EOFPrompt              string
	DisableAutoSaveHistory bool
	VimMode                bool
	Stdin                  io.Reader
	Stdout                 io.Writer
	Stderr                 io.Writer
}
type Instance struct {
	config Config
	in     *bufio.Reader
}

func NewEx(cfg *Config) (*Instance, error) { return NewFromConfig(cfg) }
func New(prompt string) (*Instance, error) { return NewFromConfig(&Config{Prompt: prompt}) }
func NewFromConfig(cfg *Config) (*Instance, error) {
	return &Instance{*cfg, bufio.NewReaderSize(os.Stdin, 1<<20)}, nil
}
func (i *Instance) SetPrompt(s string)          { i.config.Prompt = s }
func (i *Instance) GetConfig() *Config          { c := i.config; return &c }
func (i *Instance) SetConfig(c *Config) error   { i.config = *c; return nil }
func (i *Instance) SaveToHistory(string) error  { return nil }
func (i *Instance) Close() error                { return nil }
func (i *Instance) Refresh()                    {}
func (i *Instance) Stdout() io.Writer           { return os.Stdout }
func (i *Instance) Stderr() io.Writer           { return os.Stderr }
func (i *Instance) Write(b []byte) (int, error) { return os.Stdout.Write(b) }
func (i *Instance) ReadLine() (string, error)   { return i.Readline() }
func (i *Instance) Readline() (string, error) {
	os.Stdout.WriteString("\x01P" + i.config.Prompt + "\x02")
	l, err := i.in.ReadString('\n')
	if err != nil && l == "" {
		return "", io.EOF
	}
	return strings.TrimSuffix(l, "\n"), nil
}
