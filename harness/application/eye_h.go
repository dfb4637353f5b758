//verif:file pkg=internal/core/application props=C21,C22,C37,C38
package application

import (
	"github.com/tdex-network/tdex-daemon/internal/core/domain"
	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	nd "github.com/tdex-network/tdex-daemon/internal/verifnd"
	"github.com/tdex-network/tdex-daemon/pkg/crawler"
	"github.com/vulpemventures/go-elements/network"
)

// eye reports events.
type eye struct {
	crawler.Service
	events chan crawler.Event
	gone   map[string]bool
}

func (e *eye) Start()                                   {}
func (e *eye) Stop()                                    {}
func (e *eye) GetEventChannel() chan crawler.Event      { return e.events }
func (e *eye) RemoveObservable(o crawler.Observable)    { e.gone[o.Key()] = true }
func (e *eye) AddObservable(observe crawler.Observable) {}

// stored keeps a trade as given.
func (p *place) stored(t domain.Trade) {
	_, err := p.TradeRepository().GetOrCreateTrade(bg, &t.ID)
	must(err)
	must(p.TradeRepository().UpdateTrade(bg, &t.ID, func(*domain.Trade) (*domain.Trade, error) { return &t, nil }))
}

// report starts a listener and tells it what the chain says.
func (p *place) report(events ...crawler.Event) *eye { return reportTo(p, nil, events...) }

func reportTo(repo ports.RepoManager, pub ports.SecurePubSub, events ...crawler.Event) *eye {
	e := &eye{events: make(chan crawler.Event, len(events)+1), gone: map[string]bool{}}
	l := NewBlockchainListener(e, repo, pub, base, &network.Regtest)
	for _, v := range events {
		e.events <- v
	}
	e.events <- crawler.CloseEvent{}
	l.StartObservation()
	nd.RunTasks()
	return e
}

var stages = []domain.Status{
	domain.AcceptedStatus, domain.CompletedStatus, domain.FailedToCompleteStatus,
	domain.ExpiredStatus, domain.SettledStatus,
}
