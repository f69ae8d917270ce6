package client

import "strings"

// Match is the reference for topic filters (MQTT 5, section 4.7): it compares level by level.
func Match(topic, filter string) bool {
	if filter == "" || topic == "" {
		return false
	}
	f, t := strings.Split(filter, "/"), strings.Split(topic, "/")
	for i, l := range f {
		if strings.ContainsAny(l, "#+") && l != "#" && l != "+" || l == "#" && i != len(f)-1 {
			return false // not a valid filter: the wildcard does not occupy a whole level or is not last
		}
	}
	if t[0] != "" && t[0][0] == '$' && (f[0] == "#" || f[0] == "+") {
		return false
	}
	for i, l := range f {
		if l == "#" {
			return true
		}
		if i >= len(t) {
			return false
		}
		if l != "+" && l != t[i] {
			return false
		}
	}
	return len(f) == len(t)
}
