// Package cli is an offline stand-in for github.com/codegangsta/cli (v1 API),
// which this sandbox cannot fetch: flags, commands and actions as suriya-go
// uses them. It belongs to the harness, not to suriya-go.
package cli

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"strings"
	"time"
)

type Flag interface {
	apply(*flag.FlagSet)
	names() []string
}

func split(name string) (out []string) {
	for _, n := range strings.Split(name, ",") {
		out = append(out, strings.TrimSpace(n))
	}
	return
}

type StringFlag struct {
	Name, Value, Usage, EnvVar string
	Destination                *string
	Hidden                     bool
}

func (f StringFlag) names() []string { return split(f.Name) }
func (f StringFlag) apply(s *flag.FlagSet) {
	v := f.Value
	if f.EnvVar != "" && os.Getenv(f.EnvVar) != "" {
		v = os.Getenv(f.EnvVar)
	}
	p := f.Destination
	if p == nil {
		p = new(string)
	}
	for _, n := range f.names() {
		s.StringVar(p, n, v, f.Usage)
	}
}

type BoolFlag struct {
	Name, Usage, EnvVar string
	Destination         *bool
	Hidden              bool
}

func (f BoolFlag) names() []string { return split(f.Name) }
func (f BoolFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(bool)
	}
	for _, n := range f.names() {
		s.BoolVar(p, n, false, f.Usage)
	}
}

type IntFlag struct {
	Name          string
	Value         int
	Usage, EnvVar string
	Destination   *int
	Hidden        bool
}

func (f IntFlag) names() []string { return split(f.Name) }
func (f IntFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(int)
	}
	for _, n := range f.names() {
		s.IntVar(p, n, f.Value, f.Usage)
	}
}

type BoolTFlag struct {
	Name, Usage, EnvVar string
	Destination         *bool
	Hidden              bool
}

func (f BoolTFlag) names() []string { return split(f.Name) }
func (f BoolTFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(bool)
	}
	for _, n := range f.names() {
		s.BoolVar(p, n, true, f.Usage)
	}
}

type DurationFlag struct {
	Name          string
	Value         time.Duration
	Usage, EnvVar string
	Destination   *time.Duration
	Hidden        bool
}

func (f DurationFlag) names() []string { return split(f.Name) }
func (f DurationFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(time.Duration)
	}
	for _, n := range f.names() {
		s.DurationVar(p, n, f.Value, f.Usage)
	}
}

type Float64Flag struct {
	Name          string
	Value         float64
	Usage, EnvVar string
	Destination   *float64
	Hidden        bool
}

func (f Float64Flag) names() []string { return split(f.Name) }
func (f Float64Flag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(float64)
	}
	for _, n := range f.names() {
		s.Float64Var(p, n, f.Value, f.Usage)
	}
}

// Generic is a flag value of the program's own type.
type Generic interface {
	Set(value string) error
	String() string
}

type GenericFlag struct {
	Name          string
	Value         Generic
	Usage, EnvVar string
	Hidden        bool
}

func (f GenericFlag) names() []string { return split(f.Name) }
func (f GenericFlag) apply(s *flag.FlagSet) {
	if f.EnvVar != "" && os.Getenv(f.EnvVar) != "" {
		f.Value.Set(os.Getenv(f.EnvVar))
	}
	for _, n := range f.names() {
		s.Var(f.Value, n, f.Usage)
	}
}

// StringSlice is the value of a flag which may be given several times.
type StringSlice []string

func (f *StringSlice) Set(value string) error { *f = append(*f, value); return nil }
func (f *StringSlice) String() string         { return fmt.Sprintf("%s", *f) }
func (f *StringSlice) Value() []string        { return *f }

type StringSliceFlag struct {
	Name          string
	Value         *StringSlice
	Usage, EnvVar string
	Hidden        bool
}

func (f StringSliceFlag) names() []string { return split(f.Name) }
func (f StringSliceFlag) apply(s *flag.FlagSet) {
	v := f.Value
	if v == nil {
		v = &StringSlice{}
	}
	for _, n := range f.names() {
		s.Var(v, n, f.Usage)
	}
}

type Args []string

func (a Args) Tail() []string {
	if len(a) >= 2 {
		return []string(a)[1:]
	}
	return []string{}
}
func (a Args) Swap(from, to int) error {
	if from >= len(a) || to >= len(a) {
		return errors.New("index out of range")
	}
	a[from], a[to] = a[to], a[from]
	return nil
}

func (a Args) First() string { return a.Get(0) }
func (a Args) Get(n int) string {
	if n < len(a) {
		return a[n]
	}
	return ""
}
func (a Args) Present() bool { return len(a) != 0 }

type Context struct {
	App     *App
	Command Command
	set     *flag.FlagSet
	parent  *Context
}

func NewContext(app *App, set *flag.FlagSet, parent *Context) *Context {
	return &Context{App: app, set: set, parent: parent}
}

func (c *Context) lookup(name string) interface{} {
	if c.set == nil {
		return nil
	}
	f := c.set.Lookup(name)
	if f == nil {
		return nil
	}
	if g, ok := f.Value.(flag.Getter); ok {
		return g.Get()
	}
	return f.Value
}
func (c *Context) String(name string) string { s, _ := c.lookup(name).(string); return s }
func (c *Context) Bool(name string) bool     { b, _ := c.lookup(name).(bool); return b }
func (c *Context) Int(name string) int       { i, _ := c.lookup(name).(int); return i }
func (c *Context) BoolT(name string) bool    { return c.Bool(name) }
func (c *Context) Float64(name string) float64 {
	f, _ := c.lookup(name).(float64)
	return f
}
func (c *Context) Duration(name string) time.Duration {
	d, _ := c.lookup(name).(time.Duration)
	return d
}
func (c *Context) Generic(name string) interface{} { return c.lookup(name) }
func (c *Context) StringSlice(name string) []string {
	if l, ok := c.lookup(name).(*StringSlice); ok {
		return l.Value()
	}
	return nil
}
func (c *Context) root() *Context {
	for c.parent != nil {
		c = c.parent
	}
	return c
}
func (c *Context) Parent() *Context                         { return c.parent }
func (c *Context) GlobalString(name string) string          { return c.root().String(name) }
func (c *Context) GlobalBool(name string) bool              { return c.root().Bool(name) }
func (c *Context) GlobalBoolT(name string) bool             { return c.root().Bool(name) }
func (c *Context) GlobalInt(name string) int                { return c.root().Int(name) }
func (c *Context) GlobalFloat64(name string) float64        { return c.root().Float64(name) }
func (c *Context) GlobalDuration(name string) time.Duration { return c.root().Duration(name) }
func (c *Context) GlobalStringSlice(name string) []string   { return c.root().StringSlice(name) }
func (c *Context) GlobalIsSet(name string) bool             { return c.root().IsSet(name) }
func (c *Context) Set(name, value string) error             { return c.set.Set(name, value) }
func (c *Context) GlobalSet(name, value string) error       { return c.root().set.Set(name, value) }
func (c *Context) NumFlags() int                            { return c.set.NFlag() }

// one value stands behind all names of a flag
func (c *Context) IsSet(name string) (set bool) {
	given := map[string]bool{}
	c.set.Visit(func(f *flag.Flag) { given[f.Name] = true })
	flags := c.Command.Flags
	if c.parent == nil && c.App != nil {
		flags = c.App.Flags
	}
	for _, f := range flags {
		same, any := false, false
		for _, n := range f.names() {
			same = same || n == name
			any = any || given[n]
		}
		set = set || same && any
	}
	return set || given[name]
}
func (c *Context) FlagNames() (names []string) {
	c.set.Visit(func(f *flag.Flag) { names = append(names, f.Name) })
	return
}
func (c *Context) Args() Args { return Args(c.set.Args()) }
func (c *Context) NArg() int  { return c.set.NArg() }

type ActionFunc func(*Context) error
type BeforeFunc func(*Context) error
type AfterFunc func(*Context) error
type ExitCoder interface {
	error
	ExitCode() int
}
type ExitError struct {
	code    int
	message interface{}
}

func NewExitError(message interface{}, code int) *ExitError { return &ExitError{code, message} }
func (e *ExitError) Error() string                          { return fmt.Sprint(e.message) }
func (e *ExitError) ExitCode() int                          { return e.code }

type Command struct {
	Name, ShortName     string
	Aliases             []string
	Usage, UsageText    string
	Description         string
	ArgsUsage, Category string
	Before              BeforeFunc
	After               AfterFunc
	SkipFlagParsing     bool
	HideHelp            bool
	Action              interface{}
	Subcommands         []Command
	Flags               []Flag
	Hidden              bool
}

func (c Command) HasName(name string) bool {
	match := c.Name == name || c.ShortName == name && name != ""
	for _, a := range c.Aliases {
		match = match || a == name
	}
	return match
}
func (c Command) FullName() string { return c.Name }
func (c Command) Names() []string {
	names := []string{c.Name}
	if c.ShortName != "" {
		names = append(names, c.ShortName)
	}
	return append(names, c.Aliases...)
}

type Commands []Command
type Author struct{ Name, Email string }

type App struct {
	Name, HelpName, Usage, UsageText, ArgsUsage, Version, Description string
	Commands                                                          []Command
	Flags                                                             []Flag
	Before                                                            BeforeFunc
	After                                                             AfterFunc
	CommandNotFound                                                   func(*Context, string)
	Action                                                            interface{}
	Compiled                                                          time.Time
	Author, Email, Copyright                                          string
	Authors                                                           []Author
	HideHelp, HideVersion, EnableBashCompletion                       bool
	Writer, ErrWriter                                                 io.Writer
	Metadata                                                          map[string]interface{}
}

func (a *App) Command(name string) *Command {
	for _, c := range a.Commands {
		if c.HasName(name) {
			return &c
		}
	}
	return nil
}
func (a *App) RunAndExitOnError() {
	if err := a.Run(os.Args); err != nil {
		fmt.Fprintln(ErrWriter, err)
		OsExiter(1)
	}
}

func NewApp() *App {
	return &App{Name: os.Args[0], Usage: "A new cli application", Writer: os.Stdout, ErrWriter: os.Stderr}
}

func call(action interface{}, c *Context) error {
	var err error
	switch f := action.(type) {
	case nil:
	case func(*Context):
		f(c)
	case func(*Context) error:
		err = f(c)
	case ActionFunc:
		err = f(c)
	default:
		err = NewExitError("ERROR invalid Action type", 2)
	}
	HandleExitCoder(err)
	return err
}

// OsExiter and ErrWriter are what HandleExitCoder uses.
var OsExiter = os.Exit
var ErrWriter io.Writer = os.Stderr

func HandleExitCoder(err error) {
	if err == nil {
		return
	}
	if e, ok := err.(ExitCoder); ok {
		if err.Error() != "" {
			fmt.Fprintln(ErrWriter, err)
		}
		OsExiter(e.ExitCode())
		return
	}
	if m, ok := err.(MultiError); ok {
		for _, e := range m.Errors {
			HandleExitCoder(e)
		}
	}
}

// MultiError holds several errors.
type MultiError struct{ Errors []error }

func NewMultiError(err ...error) MultiError { return MultiError{err} }
func (m MultiError) Error() string {
	var l []string
	for _, e := range m.Errors {
		l = append(l, e.Error())
	}
	return strings.Join(l, "\n")
}

func ShowAppHelp(c *Context) error {
	fmt.Fprintf(c.App.Writer, "NAME:\n   %s - %s\n\nUSAGE:\n   %s [global options] command [command options] [arguments...]\n\nCOMMANDS:\n",
		c.App.Name, c.App.Usage, c.App.Name)
	for _, cmd := range c.App.Commands {
		fmt.Fprintf(c.App.Writer, "   %s\t%s\n", strings.Join(cmd.Names(), ", "), cmd.Usage)
	}
	return nil
}
func ShowCommandHelp(c *Context, command string) error {
	for _, cmd := range c.App.Commands {
		if cmd.HasName(command) {
			fmt.Fprintf(c.App.Writer, "NAME:\n   %s - %s\n", cmd.Name, cmd.Usage)
			return nil
		}
	}
	return fmt.Errorf("no help topic for %q", command)
}
func ShowSubcommandHelp(c *Context) error { return ShowCommandHelp(c, c.Command.Name) }
func ShowVersion(c *Context)              { fmt.Fprintf(c.App.Writer, "%s version %s\n", c.App.Name, c.App.Version) }

func flagSet(name string, flags []Flag, args []string) (*flag.FlagSet, error) {
	s := flag.NewFlagSet(name, flag.ContinueOnError)
	s.SetOutput(io.Discard)
	for _, f := range flags {
		f.apply(s)
	}
	return s, s.Parse(args)
}

func (a *App) Run(arguments []string) (failed error) {
	s, err := flagSet(a.Name, a.Flags, arguments[1:])
	if err != nil {
		fmt.Fprintln(a.Writer, "Incorrect Usage.", err)
		return err
	}
	c := NewContext(a, s, nil)
	if a.After != nil {
		defer func() {
			if err := a.After(c); err != nil && failed == nil {
				failed = err
			}
		}()
	}
	if a.Before != nil {
		if err := a.Before(c); err != nil {
			return err
		}
	}
	if name := c.Args().First(); name != "" {
		for _, cmd := range a.Commands {
			if !cmd.HasName(name) {
				continue
			}
			cs, err := flagSet(cmd.Name, cmd.Flags, c.Args()[1:])
			if err != nil {
				fmt.Fprintln(a.Writer, "Incorrect Usage.", err)
				return err
			}
			cc := NewContext(a, cs, c)
			cc.Command = cmd
			if cmd.After != nil {
				defer func() {
					if err := cmd.After(cc); err != nil && failed == nil {
						failed = err
					}
				}()
			}
			if cmd.Before != nil {
				if err := cmd.Before(cc); err != nil {
					return err
				}
			}
			return call(cmd.Action, cc)
		}
	}
	return call(a.Action, c)
}
