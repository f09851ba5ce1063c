package mqtt

import vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"

// Spec functions of the client. Pure; used only by contracts and replays.

// vMatchFrom: the filter from byte f on matches the topic from byte t on.
func vMatchFrom(topic, filter string, t, f int) bool {
	if f >= len(filter) {
		return t >= len(topic)
	}
	if filter[f] == '#' {
		// only as a whole level, and only at the end
		return (f == 0 || filter[f-1] == '/') && f == len(filter)-1
	}
	if filter[f] == '+' {
		// only as a whole level; stands for the rest of the topic's level
		if !((f == 0 || filter[f-1] == '/') && (f == len(filter)-1 || filter[f+1] == '/')) {
			return false
		}
		return vMatchFrom(topic, filter, vs.Index(topic, t, '/'), f+1)
	}
	if t >= len(topic) {
		// a final "/#" also stands for the parent level
		return f == len(filter)-2 && filter[f] == '/' && filter[f+1] == '#'
	}
	if filter[f] != topic[t] {
		return false
	}
	return vMatchFrom(topic, filter, t+1, f+1)
}

// vMatch is the MQTT 5 relation between topic names and topic filters (4.7).
func vMatch(topic, filter string) bool {
	if len(topic) > 0 && topic[0] == '$' && len(filter) > 0 && (filter[0] == '#' || filter[0] == '+') {
		return false
	}
	return vMatchFrom(topic, filter, 0, 0)
}
