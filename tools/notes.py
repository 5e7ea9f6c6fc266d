NOTE[''] = ('The specification is checked exhaustively within small constants by TLC; the code is bound to it by validating every recorded '
            'event of seeded scenarios, so the assurance about the code is for the scenarios explored (counts in the evidence file). '
            'Trusted: TLC, the projection in harness/drv of observations to integers and strings.')
