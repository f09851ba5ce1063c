package mqtt

import (
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

/* ---- topic filters ---- */

//verif:contract (*Client).matchTopic
//verif:safety C16
//verif:opt terminates
func vcMatchTopic(c *Client, topic, filter string) {
	want := vMatch(topic, filter)
	r := c.matchTopic(topic, filter)
	vs.Ensures("C16: a filter matches a topic exactly when MQTT says so", r == want)
}
