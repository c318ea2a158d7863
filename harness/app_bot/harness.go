package app_bot

import (
	"context"
	"errors"
	"strings"

	"github.com/eaburns/toaq/zzverif/osshim"
	"github.com/eaburns/toaq/zzverif/samples"
	"github.com/eaburns/toaq/zzverif/v"
	"github.com/velour/chat"
)

// Harnesses lists the entry points.
var Harnesses = map[string]func(){"Messages": Messages}

// channel has events to receive and collects what is said.
type channel struct {
	chat.Channel
	events []chat.Event
	next   int
	said   []string
	at     []int // events received when said
}

func (c *channel) Name() string        { return "chan" }
func (c *channel) ServiceName() string { return "service" }

var errOver = errors.New("no more events")

func (c *channel) Receive(context.Context) (chat.Event, error) {
	if c.next >= len(c.events) {
		return nil, errOver
	}
	c.next++
	return c.events[c.next-1], nil
}

func (c *channel) Send(_ context.Context, m chat.Message) (chat.Message, error) {
	c.said = append(c.said, m.Text)
	c.at = append(c.at, c.next)
	return m, nil
}

var before = []string{".miu ", ".miu", " .miu ", "miu ", "", "somebody: .miu ", "a b: .miu  ", "x: y: .miu ", ".miu a: ", "somebody:.miu ", ".MIU ", ".miu\n", "a: ", "somebody: .miu a: ", "somebody: .miu hu ji/ : ", ": .miu ", "some: body: ", "somebody:  .miu ", "somebody: .miux "}

var fewBefore = []int{0, 5, 4}

var froms = []string{"ToaqBridgeBot", "somebody", "", "nobody", "Toaq Telegram", "ToaqBridgeBots"}

// bodies are texts to parse, and some that parsing must not trim.
var fewTexts = []int{0, 8, 13, 19}

// Messages decides what the bot says to any sequence of events.
func Messages() {
	osshim.Reset("", false)
	n := v.Param("messages", 2)
	c := &channel{}
	var want []string // answer to each event, "" if none
	var heard []string
	var odd []bool
	ctx := ""
	for i := 0; i < n; i++ {
		bs, ts, fs := before, samples.Texts, froms
		if n > 1 && i+1 < n || v.Param("few", 0) == 1 {
			bs = nil
			for _, k := range fewBefore {
				bs = append(bs, before[k])
			}
			ts = nil
			for _, k := range fewTexts {
				ts = append(ts, samples.Texts[k])
			}
			fs = froms[:3]
		}
		k := v.Force(v.Pick("event", 6))
		if k > 0 {
			c.events = append(c.events, other(k, c))
			want, odd, heard = append(want, ""), append(odd, false), append(heard, "")
			ctx += " (event)"
			continue
		}
		text := bs[v.Force(v.Pick("prefix", len(bs)))] + ts[v.Force(v.Pick("text", len(ts)))]
		from := fs[v.Force(v.Pick("from", len(fs)))]
		ctx += " " + from + "> " + text
		m := chat.Message{ID: "1", Text: text}
		if from != "nobody" {
			m.From = &chat.User{ID: "2", Nick: from, Channel: c}
		}
		c.events = append(c.events, m)
		a, some, o := answer(from, text)
		if !some {
			a = ""
		}
		want, odd, heard = append(want, a), append(odd, o), append(heard, text)
	}
	v.Ctx(ctx)
	if !listen(c) {
		v.Fail("the bot goes on after every event")
	}
	v.Assert(c.next == n, "the bot receives every event")
	j := 0
	for i := range c.events {
		if want[i] == "" {
			v.Assert(j >= len(c.said) || c.at[j] != i+1, "the bot says nothing to other messages and events")
			continue
		}
		v.Assert(j < len(c.said) && c.at[j] == i+1, "the bot answers every request before it receives the next event")
		v.Out(strings.ToValidUTF8(c.said[j], "?"))
		if odd[i] {
			v.Assert(len(c.said[j]) > len(want[i]) && strings.HasPrefix(c.said[j], want[i]), "the bot answers a text without a supported meaning with its bracketed form and the reason")
			v.Reach("unsupported")
		} else {
			v.Assert(c.said[j] == want[i], "the bot answers with the bracketed form and the meaning or the error")
			v.Reach("answered")
		}
		j++
	}
	v.Assert(j == len(c.said), "the bot says nothing else")
	if j == 0 {
		v.Reach("silent")
	}
}

// listen runs the bot until there are no more events.
func listen(c *channel) (over bool) {
	defer func() {
		if r := recover(); r != nil {
			_, exited := r.(osshim.Exited)
			over = exited && c.next == len(c.events)
		}
	}()
	run(context.Background(), c)
	return c.next == len(c.events)
}

func other(k int, c *channel) chat.Event {
	u := chat.User{ID: "3", Nick: "somebody", Channel: c}
	m := chat.Message{ID: "4", Text: ".miu mai? ji/ da", From: &u}
	switch k {
	case 1:
		return chat.Delete{ID: "5", Channel: c}
	case 2:
		return chat.Edit{OrigID: "6", New: m}
	case 3:
		return chat.Join{Who: u}
	case 4:
		return chat.Leave{Who: u}
	}
	return chat.Rename{From: u, To: u}
}

// answer is what the bot says to a message; odd: what it says begins so.
func answer(from, text string) (a string, some, odd bool) {
	if from == "ToaqBridgeBot" {
		for i := 0; i+1 < len(text); i++ {
			if text[i] == ':' && text[i+1] == ' ' {
				text = text[i+2:]
				break
			}
		}
	}
	if len(text) < 4 || text[:4] != ".miu" {
		return "", false, false
	}
	input := strings.TrimSpace(text[4:])
	r := samples.Of(input)
	if r.Failed {
		return "syntax error " + r.Err, true, false
	}
	a = r.Braces
	if a != "" {
		a += "\n"
	}
	switch {
	case r.Unsupported:
		return a, true, true
	case r.Meaning == "":
		return a + "fragment", true, false
	}
	return a + r.Meaning, true, false
}
