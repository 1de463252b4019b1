&[
    (T::Rectangle, "rect"),
    (T::RoundedRectangle, "roundRect"),
    (T::Ellipse, "ellipse"),
    (T::Circle, "ellipse"),
    (T::Triangle, "triangle"),
    (T::RightTriangle, "rtTriangle"),
    (T::Diamond, "diamond"),
    (T::Pentagon, "pentagon"),
    (T::Hexagon, "hexagon"),
    (T::Octagon, "octagon"),
    (T::RightArrow, "rightArrow"),
    (T::LeftArrow, "leftArrow"),
    (T::UpArrow, "upArrow"),
    (T::DownArrow, "downArrow"),
    (T::LeftRightArrow, "leftRightArrow"),
    (T::UpDownArrow, "upDownArrow"),
    (T::BentArrow, "bentArrow"),
    (T::UTurnArrow, "uturnArrow"),
    (T::Star4, "star4"),
    (T::Star5, "star5"),
    (T::Star6, "star6"),
    (T::Star8, "star8"),
    (T::Ribbon, "ribbon2"),
    (T::Wave, "wave"),
    (T::WedgeRectCallout, "wedgeRectCallout"),
    (T::WedgeEllipseCallout, "wedgeEllipseCallout"),
    (T::CloudCallout, "cloudCallout"),
    (T::FlowChartProcess, "flowChartProcess"),
    (T::FlowChartDecision, "flowChartDecision"),
    (T::FlowChartTerminator, "flowChartTerminator"),
    (T::FlowChartDocument, "flowChartDocument"),
    (T::FlowChartPredefinedProcess, "flowChartPredefinedProcess"),
    (T::FlowChartInternalStorage, "flowChartInternalStorage"),
    (T::FlowChartData, "flowChartInputOutput"),
    (T::FlowChartInputOutput, "flowChartInputOutput"),
    (T::FlowChartManualInput, "flowChartManualInput"),
    (T::FlowChartManualOperation, "flowChartManualOperation"),
    (T::FlowChartConnector, "flowChartConnector"),
    (T::FlowChartOffPageConnector, "flowChartOffpageConnector"),
    (T::FlowChartPunchedCard, "flowChartPunchedCard"),
    (T::FlowChartPunchedTape, "flowChartPunchedTape"),
    (T::FlowChartSummingJunction, "flowChartSummingJunction"),
    (T::FlowChartOr, "flowChartOr"),
    (T::FlowChartCollate, "flowChartCollate"),
    (T::FlowChartSort, "flowChartSort"),
    (T::FlowChartExtract, "flowChartExtract"),
    (T::FlowChartMerge, "flowChartMerge"),
    (T::FlowChartOnlineStorage, "flowChartOnlineStorage"),
    (T::FlowChartDelay, "flowChartDelay"),
    (T::FlowChartMagneticTape, "flowChartMagneticTape"),
    (T::FlowChartMagneticDisk, "flowChartMagneticDisk"),
    (T::FlowChartMagneticDrum, "flowChartMagneticDrum"),
    (T::FlowChartDisplay, "flowChartDisplay"),
    (T::FlowChartPreparation, "flowChartPreparation"),
    (T::CurvedRightArrow, "curvedRightArrow"),
    (T::CurvedLeftArrow, "curvedLeftArrow"),
    (T::CurvedUpArrow, "curvedUpArrow"),
    (T::CurvedDownArrow, "curvedDownArrow"),
    (T::CurvedLeftRightArrow, "*"),
    (T::CurvedUpDownArrow, "*"),
    (T::StripedRightArrow, "stripedRightArrow"),
    (T::NotchedRightArrow, "notchedRightArrow"),
    (T::PentagonArrow, "homePlate"),
    (T::ChevronArrow, "chevron"),
    (T::RightArrowCallout, "rightArrowCallout"),
    (T::LeftArrowCallout, "leftArrowCallout"),
    (T::UpArrowCallout, "upArrowCallout"),
    (T::DownArrowCallout, "downArrowCallout"),
    (T::LeftRightArrowCallout, "leftRightArrowCallout"),
    (T::UpDownArrowCallout, "upDownArrowCallout"),
    (T::QuadArrow, "quadArrow"),
    (T::LeftRightUpArrow, "leftRightUpArrow"),
    (T::CircularArrow, "circularArrow"),
    (T::Parallelogram, "parallelogram"),
    (T::Trapezoid, "trapezoid"),
    (T::NonIsoscelesTrapezoid, "nonIsoscelesTrapezoid"),
    (T::IsoscelesTrapezoid, "trapezoid"),
    (T::Cube, "cube"),
    (T::Can, "can"),
    (T::Cone, "*"),
    (T::Cylinder, "can"),
    (T::Bevel, "bevel"),
    (T::Donut, "donut"),
    (T::NoSmoking, "noSmoking"),
    (T::BlockArc, "blockArc"),
    (T::FoldedCorner, "foldedCorner"),
    (T::SmileyFace, "smileyFace"),
    (T::Arc, "arc"),
    (T::Chord, "chord"),
    (T::Pie, "pie"),
    (T::Teardrop, "teardrop"),
    (T::Plaque, "plaque"),
    (T::MusicNote, "*"),
    (T::PictureFrame, "frame"),
    (T::Star10, "star10"),
    (T::Star12, "star12"),
    (T::Star16, "star16"),
    (T::Star24, "star24"),
    (T::Star32, "star32"),
    (T::Seal, "*"),
    (T::Seal4, "*"),
    (T::Seal8, "*"),
    (T::Seal16, "*"),
    (T::Seal32, "*"),
    (T::ActionButtonBlank, "actionButtonBlank"),
    (T::ActionButtonHome, "actionButtonHome"),
    (T::ActionButtonHelp, "actionButtonHelp"),
    (T::ActionButtonInformation, "actionButtonInformation"),
    (T::ActionButtonForwardNext, "actionButtonForwardNext"),
    (T::ActionButtonBackPrevious, "actionButtonBackPrevious"),
    (T::ActionButtonBeginning, "actionButtonBeginning"),
    (T::ActionButtonEnd, "actionButtonEnd"),
    (T::ActionButtonReturn, "actionButtonReturn"),
    (T::ActionButtonDocument, "actionButtonDocument"),
    (T::ActionButtonSound, "actionButtonSound"),
    (T::ActionButtonMovie, "actionButtonMovie"),
    (T::Heart, "heart"),
    (T::Lightning, "lightningBolt"),
    (T::Sun, "sun"),
    (T::Moon, "moon"),
    (T::Cloud, "cloud"),
    (T::Brace, "leftBrace"),
    (T::Bracket, "leftBracket"),
    (T::Plus, "mathPlus"),
    (T::Minus, "mathMinus"),
]
