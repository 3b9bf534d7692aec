// cfgdrv prints the settings the program would run with in the current directory.
package main

import (
	"encoding/json"
	"os"

	"github.com/GalaIO/P2Pcrawler/config"
)

func main() {
	f, err := os.Create(os.Args[1])
	if err != nil {
		panic("verifharness: " + err.Error())
	}
	json.NewEncoder(f).Encode(map[string]interface{}{
		"dht": config.DhtConfig(), "fetchTorrent": config.FetchTorrentConfig(), "pprof": config.PProfConfig(), "logger": config.LoggerConfig()})
	f.Close()
}
