package lib

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	"github.com/vivint/rothko/internal/zsim"
)

// KnownFinding is one entry of the committed known findings file.
type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Kind     string `json:"kind"`     // violation class
	Contains string `json:"contains"` // and part of its description
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
}

var knownList []KnownFinding

func loadKnown(path, prop string) {
	if path == "" {
		return
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var doc struct {
		Findings []KnownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, k := range doc.Findings {
		if k.Status == "known" && k.Property == prop {
			knownList = append(knownList, k)
		}
	}
}

// KnownMatch returns the id of the known finding a violation belongs to.
func KnownMatch(prop string, v *zsim.Violation) string {
	for _, k := range knownList {
		if k.Property == prop && k.Kind == v.Kind && strings.Contains(v.Detail, k.Contains) {
			return k.ID
		}
	}
	return ""
}
