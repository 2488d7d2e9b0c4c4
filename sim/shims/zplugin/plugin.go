package plugin

import "errors"

func Open(path string) (*Plugin, error) {
	return nil, errors.New("plugin.Open(" + path + "): no plugins in the simulation")
}
