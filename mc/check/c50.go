package check

import (
	"context"
	"database/sql/driver"
	stderrors "errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	goBolt "verif/gen/bolt"
	"verif/gen/bolt/errors"
	"verif/gen/bolt/structures/messages"
	"verif/mc"
)

// foreign is an error type of someone else.
type foreign struct{ s string }

func (f *foreign) Error() string { return f.s }

// uncomparable is an error that == panics on.
type uncomparable struct{ parts []string }

func (u uncomparable) Error() string { return strings.Join(u.parts, ",") }

func sameError(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return reflect.DeepEqual(a, b)
}

func c50(tier string) []mc.Scenario {
	depth := 4
	if tier == "thorough" {
		depth = 6
	}
	type bottom struct {
		name string
		mk   func() (error, []string)
	}
	bottoms := []bottom{
		{"library", func() (error, []string) {
			return errors.New("bottom %d of %s", 1, "100%d"), []string{"bottom 1 of 100%d"}
		}},
		{"sentinel", func() (error, []string) { return errors.ErrClosed, []string{errors.ErrClosed.Error()[:20]} }},
		{"configuration", func() (error, []string) { return errors.ErrConfiguration, []string{"bolt configuration error"} }},
		{"stdlib", func() (error, []string) { return stderrors.New("plain %s %d"), []string{"plain %s %d"} }},
		{"EOF", func() (error, []string) { return io.EOF, []string{"EOF"} }},
		{"bad connection", func() (error, []string) { return driver.ErrBadConn, []string{driver.ErrBadConn.Error()} }},
		{"pointer", func() (error, []string) { return &foreign{"foreign"}, []string{"foreign"} }},
		{"uncomparable", func() (error, []string) { return uncomparable{[]string{"u", "v"}}, []string{"u,v"} }},
		{"deadline", func() (error, []string) { return context.DeadlineExceeded, []string{context.DeadlineExceeded.Error()} }},
		{"failure", func() (error, []string) {
			return messages.NewFailureMessage(map[string]interface{}{"code": "Neo.X.Y", "message": "no %s\nway"}), []string{"Neo.X.Y", "no %s\nway"}
		}},
		{"odd failure", func() (error, []string) {
			return messages.NewFailureMessage(map[string]interface{}{"code": int64(1)}), nil
		}},
		{"foreign around library", func() (error, []string) {
			return fmt.Errorf("outer: %w", errors.New("inner")), []string{"outer: ", "inner"}
		}},
		{"foreign around chain", func() (error, []string) {
			return &foreign{errors.Wrap(io.EOF, "far").Error()}, []string{"far", "EOF"}
		}},
	}
	type level struct {
		text string
		args []interface{}
		want string
	}
	levels := []level{
		{"level", nil, "level"},
		{"with %s and %d", []interface{}{"100%d %s %!", 7}, "with 100%d %s %! and 7"},
		{"%v", []interface{}{fmt.Errorf("an %s", "error %q")}, "an error %q"},
		{"", nil, ""},
		{"two\nlines\tand \u4e16", nil, "two\nlines\tand \u4e16"},
		{"%s", []interface{}{strings.Repeat("long", 500)}, strings.Repeat("long", 500)},
	}
	chain := func(id string, n int) mc.Scenario {
		return plain(id, func(x *mc.X) {
			b := bottoms[x.Choose(len(bottoms), "bottom")]
			err, texts := b.mk()
			bot := err
			what := b.name
			var all []error
			for i := 0; i < n; i++ {
				k := x.Choose(len(levels)+1, "level")
				if k == len(levels) {
					break
				}
				l := levels[k]
				before := err.Error()
				var w *errors.Error = errors.Wrap(err, l.text, l.args...)
				x.Check(w != nil, "nil", "%s: Wrap gives nil", what)
				// a second wrapper around the same error is another error
				o := errors.Wrap(err, "sibling")
				x.Check(sameError(o.Inner(), err), "inner", "%s: the inner error of a second wrapper is %T", what, o.Inner())
				x.Check(err.Error() == before, "changed", "%s: wrapping changes the text of what is wrapped", what)
				x.Check(sameError(w.Inner(), err), "inner", "%s: the inner error of %q is %T %v", what, l.want, w.Inner(), w.Inner())
				all = append(all, w)
				err = w
				texts = append(texts, l.want)
				what += fmt.Sprintf(" / %.20q", l.want)
				im := w.InnerMost()
				x.Check(sameError(im, bot), "innermost", "%s: the innermost error is %T %v", what, im, im)
				text := w.Error()
				for _, t := range texts {
					x.Check(strings.Contains(text, t), "text", "%s: the text does not contain %q:\n%s", what, t, text)
				}
				x.Check(strings.Count(text, "%!") == strings.Count(strings.Join(texts, "\x00"), "%!"), "verbs", "%s: the text has formatting errors:\n%s", what, text)
			}
			if e, ok := bot.(*errors.Error); ok {
				x.Check(e.InnerMost() == error(e), "innermost", "%s: the innermost error of an error that wraps nothing is %v", what, e.InnerMost())
				x.Check(e.Inner() == nil, "inner", "%s: an error that wraps nothing has the inner error %v", what, e.Inner())
			}
			// every level still sees the levels below it
			for i, a := range all {
				want := bot
				if i > 0 {
					want = all[i-1]
				}
				x.Check(sameError(a.(*errors.Error).Inner(), want), "inner", "%s: level %d lost its inner error", what, i)
				x.Check(sameError(a.(*errors.Error).InnerMost(), bot), "innermost", "%s: level %d lost its innermost error", what, i)
			}
			x.Class("%s, %d levels", b.name, len(all))
		})
	}
	return []mc.Scenario{
		chain("chains", depth),
		plain("rejected options", func(x *mc.X) {
			// the client wraps what an option returns
			b := bottoms[x.Choose(len(bottoms), "error of the option")]
			err, texts := b.mk()
			for i := x.Choose(3, "levels"); i > 0; i-- {
				l := levels[x.Choose(len(levels), "level")]
				err = errors.Wrap(err, l.text, l.args...)
				texts = append(texts, l.want)
			}
			opts := []goBolt.Opt{goBolt.WithHostPort("h", 1), goBolt.WithBasicAuth("u", "p")}
			at := x.Choose(3, "position")
			opts = append(opts[:at:at], append([]goBolt.Opt{func(*goBolt.Client) error { return err }}, opts[at:]...)...)
			c, got := goBolt.NewClient(opts...)
			x.Check(got != nil && c == nil, "accepted", "a client is made although an option fails: %v", c)
			text := got.Error()
			for _, t := range texts {
				x.Check(strings.Contains(text, t), "text", "the error for an option that returned %q does not contain it:\n%s", t, text)
			}
			x.Check(strings.Count(text, "%!") == strings.Count(strings.Join(texts, "\x00"), "%!"), "verbs", "the error for an option has formatting errors:\n%s", text)
			x.Class("%s", b.name)
		}),
		plain("long chains", func(x *mc.X) {
			b := bottoms[x.Choose(len(bottoms), "bottom")]
			n := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 257}[x.Choose(15, "length")]
			bot, texts := b.mk()
			err := bot
			for i := 0; i < n; i++ {
				err = errors.Wrap(err, "level <%d>", i)
				texts = append(texts, fmt.Sprintf("level <%d>", i))
			}
			e := err.(*errors.Error)
			x.Check(sameError(e.InnerMost(), bot), "innermost", "%s below %d levels: the innermost error is %T", b.name, n, e.InnerMost())
			text := e.Error()
			for _, t := range texts {
				x.Check(strings.Contains(text, t), "text", "%s below %d levels: the text does not contain %q", b.name, n, t)
			}
			// level by level down to the bottom
			for i := n - 1; i >= 0; i-- {
				w, ok := err.(*errors.Error)
				x.Check(ok, "inner", "%s below %d levels: level %d is a %T", b.name, n, i, err)
				err = w.Inner()
			}
			x.Check(sameError(err, bot), "inner", "%s below %d levels: %d steps inwards give %T", b.name, n, n, err)
		}),
	}
}

func init() {
	register(&mc.Check{Property: "C50", Scenarios: c50,
		Bounds:      "13 kinds of innermost errors (of the library, of others, comparable or not, server failures, foreign errors around chains) below every sequence of up to 4 (thorough 6) of 6 kinds of levels (formatting arguments containing verbs, empty and multi-line texts), and below 15 lengths of uniform chains up to 257; the errors with which a client reports options that fail with any of them, up to two levels",
		Assumptions: []string{"a foreign error is the innermost one, whatever it wraps in turn"}})
}
